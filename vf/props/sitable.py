"""The SI, written down independently of /repo: units, prefixes, symbols and named quantities with their dimensions
(exponents of length, time, mass, temperature, current, amount, luminous intensity) and exact factors.
Sources: SI brochure (9th edition) tables 2 to 8; ISO 80000; CODATA 2018 for the dalton."""
from fractions import Fraction as Fr

BASE = ["L", "T", "M", "K", "I", "N", "J"]
BASE_UNITS = ["meter", "second", "kilogram", "kelvin", "ampere", "mole", "candela"]


def D(**k):
    return tuple(k.get(b, 0) for b in BASE)


ONE = D()
# pi to 60 digits
PI = Fr(int("3141592653589793238462643383279502884197169399375105820974944"), 10 ** 60)

PREFIXES = [("quetta", ["Q"], 30), ("ronna", ["R"], 27), ("yotta", ["Y"], 24), ("zetta", ["Z"], 21),
            ("exa", ["E"], 18), ("peta", ["P"], 15), ("tera", ["T"], 12), ("giga", ["G"], 9), ("mega", ["M"], 6),
            ("kilo", ["k"], 3), ("hecto", ["h"], 2), ("deca", ["da"], 1), ("deci", ["d"], -1), ("centi", ["c"], -2),
            ("milli", ["m"], -3), ("micro", ["\u03bc", "\u00b5"], -6), ("nano", ["n"], -9), ("pico", ["p"], -12),
            ("femto", ["f"], -15), ("atto", ["a"], -18), ("zepto", ["z"], -21), ("yocto", ["y"], -24),
            ("ronto", ["r"], -27), ("quecto", ["q"], -30)]

ENERGY = D(M=1, L=2, T=-2)
FORCE = D(M=1, L=1, T=-2)
POWER = D(M=1, L=2, T=-3)
PRESSURE = D(M=1, L=-1, T=-2)
CHARGE = D(I=1, T=1)
VOLT = D(M=1, L=2, T=-3, I=-1)
OHM = D(M=1, L=2, T=-3, I=-2)
WB = D(M=1, L=2, T=-2, I=-1)
TESLA = D(M=1, T=-2, I=-1)
HENRY = D(M=1, L=2, T=-2, I=-2)
FARAD = D(M=-1, L=-2, T=4, I=2)
GRAY = D(L=2, T=-2)

# names (spellings), symbols, dimension, factor in coherent units, takes prefixes
UNITS = [
    (["meter", "metre", "meters", "metres"], ["m"], D(L=1), Fr(1), True),
    (["second", "seconds"], ["s"], D(T=1), Fr(1), True),
    (["gram", "grams"], ["g"], D(M=1), Fr(1, 1000), True),
    (["ampere", "amperes"], ["A"], D(I=1), Fr(1), True),
    (["kelvin", "kelvins"], ["K"], D(K=1), Fr(1), True),
    (["mole", "moles"], ["mol"], D(N=1), Fr(1), True),
    (["candela", "candelas"], ["cd"], D(J=1), Fr(1), True),
    (["radian", "radians"], ["rad"], ONE, Fr(1), True),
    (["steradian", "steradians"], ["sr"], ONE, Fr(1), True),
    (["hertz"], ["Hz"], D(T=-1), Fr(1), True),
    (["newton", "newtons"], ["N"], FORCE, Fr(1), True),
    (["pascal", "pascals"], ["Pa"], PRESSURE, Fr(1), True),
    (["joule", "joules"], ["J"], ENERGY, Fr(1), True),
    (["watt", "watts"], ["W"], POWER, Fr(1), True),
    (["coulomb", "coulombs"], ["C"], CHARGE, Fr(1), True),
    (["volt", "volts"], ["V"], VOLT, Fr(1), True),
    (["farad", "farads"], ["F"], FARAD, Fr(1), True),
    (["ohm", "ohms"], ["\u03a9", "\u2126"], OHM, Fr(1), True),
    (["siemens"], ["S"], D(M=-1, L=-2, T=3, I=2), Fr(1), True),
    (["weber", "webers"], ["Wb"], WB, Fr(1), True),
    (["tesla", "teslas"], ["T"], TESLA, Fr(1), True),
    (["henry", "henrys", "henries"], ["H"], HENRY, Fr(1), True),
    (["lumen", "lumens"], ["lm"], D(J=1), Fr(1), True),
    (["lux"], ["lx"], D(J=1, L=-2), Fr(1), True),
    (["becquerel", "becquerels"], ["Bq"], D(T=-1), Fr(1), True),
    (["gray", "grays"], ["Gy"], GRAY, Fr(1), True),
    (["sievert", "sieverts"], ["Sv"], GRAY, Fr(1), True),
    (["katal", "katals"], ["kat"], D(N=1, T=-1), Fr(1), True),
    (["minute", "minutes"], ["min"], D(T=1), Fr(60), False),
    (["hour", "hours"], ["h"], D(T=1), Fr(3600), False),
    (["day", "days"], ["d", "day"], D(T=1), Fr(86400), False),
    (["astronomicalunit", "astronomicalunits", "astronomical_unit"], ["au"], D(L=1), Fr(149597870700), False),
    (["degree", "degrees"], ["deg"], ONE, PI / 180, False),
    (["arcminute", "arcminutes"], [], ONE, PI / 10800, False),
    (["arcsecond", "arcseconds"], [], ONE, PI / 648000, False),
    (["are", "ares"], ["a"], D(L=2), Fr(100), False),
    (["hectare", "hectares"], ["ha"], D(L=2), Fr(10000), False),
    (["litre", "litres", "liter", "liters"], ["l", "L"], D(L=3), Fr(1, 1000), True),
    (["tonne", "tonnes"], ["t"], D(M=1), Fr(1000), True),
    (["dalton", "daltons"], ["Da"], D(M=1), Fr(166053906660, 10 ** 38), True),
    (["electronvolt", "electronvolts"], ["eV"], ENERGY, Fr(1602176634, 10 ** 28), True),
    (["joule_per_kilogram", "joules_per_kilogram"], [], GRAY, Fr(1), True),
    (["joule_per_kilogram_kelvin", "joules_per_kilogram_kelvin"], [], D(L=2, T=-2, K=-1), Fr(1), True),
    (["meter_per_second", "meters_per_second"], [], D(L=1, T=-1), Fr(1), True),
    (["square_meter", "square_metre", "square_meters", "square_metres"], [], D(L=2), Fr(1), False),
    (["cubic_meter", "cubic_metre", "cubic_meters", "cubic_metres"], [], D(L=3), Fr(1), False),
]
CONSTANTS = [("PI", ONE, PI)]

DIMENSIONS = {
    "Length": D(L=1), "Time": D(T=1), "Mass": D(M=1), "Temperature": D(K=1), "Current": D(I=1),
    "AmountOfSubstance": D(N=1), "LuminousIntensity": D(J=1), "Dimensionless": ONE, "Angle": ONE, "SolidAngle": ONE,
    "Area": D(L=2), "Volume": D(L=3), "Wavenumber": D(L=-1), "Frequency": D(T=-1), "Velocity": D(L=1, T=-1),
    "Acceleration": D(L=1, T=-2), "Jerk": D(L=1, T=-3), "FlowRate": D(L=3, T=-1), "Momentum": D(M=1, L=1, T=-1),
    "Force": FORCE, "Energy": ENERGY, "Power": POWER, "Pressure": PRESSURE, "Action": D(M=1, L=2, T=-1),
    "MassDensity": D(M=1, L=-3), "MomentOfInertia": D(M=1, L=2), "AngularMomentum": D(M=1, L=2, T=-1),
    "Torque": ENERGY, "EnergyDensity": PRESSURE, "MassFlow": D(M=1, T=-1),
    "ElectricCharge": CHARGE, "Voltage": VOLT, "Capacitance": FARAD, "ElectricResistance": OHM,
    "Resistivity": D(M=1, L=3, T=-3, I=-2), "ElectricConductance": D(M=-1, L=-2, T=3, I=2),
    "Conductivity": D(M=-1, L=-3, T=3, I=2), "MagneticFluxDensity": TESLA, "MagneticFlux": WB,
    "MagneticFieldStrength": D(I=1, L=-1), "Inductance": HENRY, "ElectricChargeDensity": D(I=1, T=1, L=-3),
    "CurrentDensity": D(I=1, L=-2), "ElectricDipoleMoment": D(I=1, T=1, L=1), "ElectricQuadrupoleMoment": D(I=1, T=1, L=2),
    "MagneticDipoleMoment": D(I=1, L=2), "ElectricFieldStrength": D(M=1, L=1, T=-3, I=-1),
    "ElectricDisplacementFieldStrength": D(I=1, T=1, L=-2), "ElectricPermittivity": D(M=-1, L=-3, T=4, I=2),
    "MagneticPermeability": D(M=1, L=1, T=-2, I=-2), "Polarizability": D(M=-1, T=4, I=2),
    "ElectricMobility": D(M=-1, T=2, I=1),
    "Entropy": D(M=1, L=2, T=-2, K=-1), "HeatCapacity": D(M=1, L=2, T=-2, K=-1), "SpecificHeatCapacity": D(L=2, T=-2, K=-1),
    "ThermalConductivity": D(M=1, L=1, T=-3, K=-1), "ThermalTransmittance": D(M=1, T=-3, K=-1),
    "MolarMass": D(M=1, N=-1), "MolarVolume": D(L=3, N=-1), "CatalyticActivity": D(N=1, T=-1), "Molarity": D(N=1, L=-3),
    "Molality": D(N=1, M=-1), "ChemicalPotential": D(M=1, L=2, T=-2, N=-1), "MolarHeatCapacity": D(M=1, L=2, T=-2, K=-1, N=-1),
    "LuminousFlux": D(J=1), "Illuminance": D(J=1, L=-2), "Irradiance": D(M=1, T=-3), "Activity": D(T=-1),
    "AbsorbedDose": GRAY, "EquivalentDose": GRAY, "SpecificActivity": D(T=-1, M=-1), "DynamicViscosity": D(M=1, L=-1, T=-1),
    "KinematicViscosity": D(L=2, T=-1), "MomentumDensity": D(M=1, L=-2, T=-1), "SpecificEnergy": GRAY,
    "MassFlux": D(M=1, L=-2, T=-1), "EnergyFlux": D(M=1, T=-3),
}


def names():
    """(identifier, dimension, factor)"""
    out = []
    for ns, _, d, f, pre in UNITS:
        for n in ns:
            out.append((n, d, f))
            if pre:
                for p, _, e in PREFIXES:
                    out.append((p + n, d, f * Fr(10) ** e))
    return out


def symbols():
    """(symbol, dimension, factor, name of the unit)"""
    out = []
    for ns, ss, d, f, pre in UNITS:
        for s in ss:
            out.append((s, d, f, ns[0]))
            if pre:
                for p, ps, e in PREFIXES:
                    for q in ps:
                        out.append((q + s, d, f * Fr(10) ** e, p + ns[0]))
    return out
