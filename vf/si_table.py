"""What the SI brochure (9th edition), CODATA 2018, IAU 2012 and the legal definitions say about the names in diman::si.
Written from those sources, not from the code. Exponents over (length, time, mass, temperature, current, amount, luminous)."""
from fractions import Fraction as F


def _d(**k):
    order = ("L", "T", "M", "Th", "I", "N", "J")
    return tuple(k.get(n, 0) for n in order)


DIMENSIONS = {
    "Length": _d(L=1), "Time": _d(T=1), "Mass": _d(M=1), "Temperature": _d(Th=1), "Current": _d(I=1),
    "AmountOfSubstance": _d(N=1), "LuminousIntensity": _d(J=1), "Dimensionless": _d(),
    "Angle": _d(), "SolidAngle": _d(), "Area": _d(L=2), "Volume": _d(L=3), "Wavenumber": _d(L=-1),
    "Frequency": _d(T=-1), "Velocity": _d(L=1, T=-1), "Acceleration": _d(L=1, T=-2), "Jerk": _d(L=1, T=-3),
    "FlowRate": _d(L=3, T=-1), "Momentum": _d(M=1, L=1, T=-1), "Force": _d(M=1, L=1, T=-2),
    "Energy": _d(M=1, L=2, T=-2), "Power": _d(M=1, L=2, T=-3), "Pressure": _d(M=1, L=-1, T=-2),
    "Action": _d(M=1, L=2, T=-1), "MassDensity": _d(M=1, L=-3), "MomentOfInertia": _d(M=1, L=2),
    "AngularMomentum": _d(M=1, L=2, T=-1), "Torque": _d(M=1, L=2, T=-2), "EnergyDensity": _d(M=1, L=-1, T=-2),
    "MassFlow": _d(M=1, T=-1), "ElectricCharge": _d(I=1, T=1), "Voltage": _d(M=1, L=2, T=-3, I=-1),
    "Capacitance": _d(M=-1, L=-2, T=4, I=2), "ElectricResistance": _d(M=1, L=2, T=-3, I=-2),
    "Resistivity": _d(M=1, L=3, T=-3, I=-2), "ElectricConductance": _d(M=-1, L=-2, T=3, I=2),
    "Conductivity": _d(M=-1, L=-3, T=3, I=2), "MagneticFluxDensity": _d(M=1, T=-2, I=-1),
    "MagneticFlux": _d(M=1, L=2, T=-2, I=-1), "MagneticFieldStrength": _d(I=1, L=-1),
    "Inductance": _d(M=1, L=2, T=-2, I=-2), "ElectricChargeDensity": _d(I=1, T=1, L=-3),
    "CurrentDensity": _d(I=1, L=-2), "ElectricDipoleMoment": _d(I=1, T=1, L=1),
    "ElectricQuadrupoleMoment": _d(I=1, T=1, L=2), "MagneticDipoleMoment": _d(I=1, L=2),
    "ElectricFieldStrength": _d(M=1, L=1, T=-3, I=-1), "ElectricDisplacementFieldStrength": _d(I=1, T=1, L=-2),
    "ElectricPermittivity": _d(M=-1, L=-3, T=4, I=2), "MagneticPermeability": _d(M=1, L=1, T=-2, I=-2),
    "Polarizability": _d(M=-1, T=4, I=2), "ElectricMobility": _d(M=-1, T=2, I=1),
    "Entropy": _d(M=1, L=2, T=-2, Th=-1), "HeatCapacity": _d(M=1, L=2, T=-2, Th=-1),
    "SpecificHeatCapacity": _d(L=2, T=-2, Th=-1), "ThermalConductivity": _d(M=1, L=1, T=-3, Th=-1),
    "ThermalTransmittance": _d(M=1, T=-3, Th=-1), "MolarMass": _d(M=1, N=-1), "MolarVolume": _d(L=3, N=-1),
    "CatalyticActivity": _d(N=1, T=-1), "Molarity": _d(N=1, L=-3), "Molality": _d(N=1, M=-1),
    "ChemicalPotential": _d(M=1, L=2, T=-2, N=-1), "MolarHeatCapacity": _d(M=1, L=2, T=-2, Th=-1, N=-1),
    "LuminousFlux": _d(J=1), "Illuminance": _d(J=1, L=-2), "Irradiance": _d(M=1, T=-3), "Activity": _d(T=-1),
    "AbsorbedDose": _d(L=2, T=-2), "EquivalentDose": _d(L=2, T=-2), "SpecificActivity": _d(T=-1, M=-1),
    "DynamicViscosity": _d(M=1, L=-1, T=-1), "KinematicViscosity": _d(L=2, T=-1),
    "MomentumDensity": _d(M=1, L=-2, T=-1), "SpecificEnergy": _d(L=2, T=-2), "MassFlux": _d(M=1, L=-2, T=-1),
    "EnergyFlux": _d(M=1, T=-3),
}

PREFIXES = {
    "exa": ("E", F(10) ** 18), "peta": ("P", F(10) ** 15), "tera": ("T", F(10) ** 12), "giga": ("G", F(10) ** 9),
    "mega": ("M", F(10) ** 6), "kilo": ("k", F(10) ** 3), "hecto": ("h", F(10) ** 2), "deca": ("da", F(10)),
    "deci": ("d", F(1, 10)), "centi": ("c", F(1, 100)), "milli": ("m", F(1, 10**3)), "micro": ("μ", F(1, 10**6)),
    "nano": ("n", F(1, 10**9)), "pico": ("p", F(1, 10**12)), "femto": ("f", F(1, 10**15)), "atto": ("a", F(1, 10**18)),
}
ALL = tuple(PREFIXES)
PI = F("3.14159265358979323846264338327950288419716939937510582097494459")

# name: (dimension, factor, symbol, aliases, prefixes that exist)
UNITS = {
    "meter": ("Length", F(1), "m", ["metre", "metres", "meters"], ALL),
    "second": ("Time", F(1), "s", ["seconds"], ALL),
    "kilogram": ("Mass", F(1), "kg", ["kilograms"], ()),
    "gram": ("Mass", F(1, 1000), "g", ["grams"], tuple(p for p in ALL if p != "kilo")),
    "ampere": ("Current", F(1), "A", ["amperes"], ALL),
    "kelvin": ("Temperature", F(1), "K", ["kelvins"], ALL),
    "mole": ("AmountOfSubstance", F(1), "mol", ["moles"], ALL),
    "candela": ("LuminousIntensity", F(1), "cd", ["candelas"], ALL),
    "radian": ("Angle", F(1), "rad", ["radians"], ALL),
    "steradian": ("SolidAngle", F(1), "sr", ["steradians"], ALL),
    "hertz": ("Frequency", F(1), "Hz", [], ALL),
    "newton": ("Force", F(1), "N", ["newtons"], ALL),
    "pascal": ("Pressure", F(1), "Pa", ["pascals"], ALL),
    "joule": ("Energy", F(1), "J", ["joules"], ALL),
    "watt": ("Power", F(1), "W", ["watts"], ALL),
    "coulomb": ("ElectricCharge", F(1), "C", ["coulombs"], ALL),
    "volt": ("Voltage", F(1), "V", ["volts"], ALL),
    "farad": ("Capacitance", F(1), "F", ["farads"], ALL),
    "ohm": ("ElectricResistance", F(1), "Ω", ["ohms"], ALL),
    "siemens": ("ElectricConductance", F(1), "S", [], ALL),
    "weber": ("MagneticFlux", F(1), "Wb", ["webers"], ALL),
    "tesla": ("MagneticFluxDensity", F(1), "T", ["teslas"], ALL),
    "henry": ("Inductance", F(1), "H", ["henrys"], ALL),
    "lumen": ("LuminousFlux", F(1), "lm", ["lumens"], ALL),
    "lux": ("Illuminance", F(1), "lx", [], ALL),
    "becquerel": ("Activity", F(1), "Bq", ["becquerels"], ALL),
    "gray": ("AbsorbedDose", F(1), "Gy", ["grays"], ALL),
    "sievert": ("EquivalentDose", F(1), "Sv", ["sieverts"], ALL),
    "katal": ("CatalyticActivity", F(1), "kat", ["katals"], ALL),
    "minute": ("Time", F(60), "min", ["minutes"], ()),
    "hour": ("Time", F(3600), "h", ["hours"], ()),
    "day": ("Time", F(86400), "day", ["days"], ()),
    "astronomicalunit": ("Length", F(149597870700), "au", ["astronomicalunits"], ()),
    "degree": ("Angle", PI / 180, "deg", ["degrees"], ()),
    "arcminute": ("Angle", PI / 10800, None, ["arcminutes"], ()),
    "arcsecond": ("Angle", PI / 648000, None, ["arcseconds"], ()),
    "are": ("Area", F(100), None, ["ares"], ()),
    "hectare": ("Area", F(10000), "ha", ["hectares"], ()),
    "litre": ("Volume", F(1, 1000), "l", ["litres"], ALL),
    "tonne": ("Mass", F(1000), None, ["tonnes"], ALL),
    "dalton": ("Mass", F("1.66053906660e-27"), "Da", ["daltons"], ()),
    "electronvolt": ("Energy", F("1.602176634e-19"), "eV", ["electronvolts"], ALL),
    "joule_per_kilogram": ("SpecificEnergy", F(1), None, ["joules_per_kilogram"], ALL),
    "joule_per_kilogram_kelvin": ("SpecificHeatCapacity", F(1), None, ["joules_per_kilogram_kelvin"], ALL),
    "meter_per_second": ("Velocity", F(1), None, ["meters_per_second"], ALL),
    "square_meter": ("Area", F(1), None, ["square_metre", "square_meters", "square_metres"], ()),
    "cubic_meter": ("Volume", F(1), None, ["cubic_metre", "cubic_meters", "cubic_metres"], ()),
}
CONSTANTS = {"PI": ("Dimensionless", PI)}


def names():
    """Every unit name that exists: (name, dimension, factor)."""
    out = []
    for n, (dim, f, sym, aliases, prefixes) in UNITS.items():
        for a in [n] + aliases:
            out.append((a, dim, f))
            for p in prefixes:
                out.append((p + a, dim, PREFIXES[p][1] * f))
    return out


def symbols():
    """Every symbol that exists: (symbol, dimension, factor)."""
    out = []
    for n, (dim, f, sym, aliases, prefixes) in UNITS.items():
        if sym:
            out.append((sym, dim, f))
            for p in prefixes:
                out.append((PREFIXES[p][0] + sym, dim, PREFIXES[p][1] * f))
    return out
