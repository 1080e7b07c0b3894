"""Pieces shared by the generated workloads."""
import random

PRELUDE = """#![allow(incomplete_features, warnings)]
#![feature(generic_const_exprs, adt_const_params)]
use vfdeps::*;
"""
SI = PRELUDE + """use diman::si::dimensions::*;
use diman::si::units;
"""

FLOATS = ["f32", "f64"]
VECS = {"Vec2": ("f32", 2), "Vec3": ("f32", 3), "DVec2": ("f64", 2), "DVec3": ("f64", 3)}
STORAGES = FLOATS + list(VECS)


def scalar(s):
    return VECS[s][0] if s in VECS else s


# name: exponents over (length, time, mass, temperature, current, amount, luminous), all of them si dimensions
SI_DIMS = {
    "Dimensionless": (0, 0, 0, 0, 0, 0, 0),
    "Length": (1, 0, 0, 0, 0, 0, 0),
    "Time": (0, 1, 0, 0, 0, 0, 0),
    "Mass": (0, 0, 1, 0, 0, 0, 0),
    "Temperature": (0, 0, 0, 1, 0, 0, 0),
    "Current": (0, 0, 0, 0, 1, 0, 0),
    "AmountOfSubstance": (0, 0, 0, 0, 0, 1, 0),
    "LuminousIntensity": (0, 0, 0, 0, 0, 0, 1),
    "Area": (2, 0, 0, 0, 0, 0, 0),
    "Volume": (3, 0, 0, 0, 0, 0, 0),
    "Wavenumber": (-1, 0, 0, 0, 0, 0, 0),
    "Frequency": (0, -1, 0, 0, 0, 0, 0),
    "Velocity": (1, -1, 0, 0, 0, 0, 0),
    "Acceleration": (1, -2, 0, 0, 0, 0, 0),
    "Force": (1, -2, 1, 0, 0, 0, 0),
    "Energy": (2, -2, 1, 0, 0, 0, 0),
    "Power": (2, -3, 1, 0, 0, 0, 0),
    "Pressure": (-1, -2, 1, 0, 0, 0, 0),
    "ElectricCharge": (0, 1, 0, 0, 1, 0, 0),
    "Voltage": (2, -3, 1, 0, -1, 0, 0),
    "Entropy": (2, -2, 1, -1, 0, 0, 0),
    "MolarMass": (0, 0, 1, 0, 0, -1, 0),
    "Illuminance": (-2, 0, 0, 0, 0, 0, 1),
    "ThermalConductivity": (1, -3, 1, -1, 0, 0, 0),
    "ElectricPermittivity": (-3, 4, -1, 0, 2, 0, 0),
    "SpecificEnergy": (2, -2, 0, 0, 0, 0, 0),
}
DIMENSIONAL = [d for d in SI_DIMS if d != "Dimensionless"]


class Draw:
    """Deterministic random choices for one check."""

    def __init__(self, c, label=""):
        self.r = random.Random(f"{c.pid}/{c.seed}/{label}")

    def dim(self, with_none=True):
        return self.r.choice(list(SI_DIMS) if with_none else DIMENSIONAL)


def program(parts, prelude=SI, helpers=""):
    """One function per part, so that debug builds keep their frames small and rustc can work in parallel."""
    out = [prelude, helpers]
    for i, p in enumerate(parts):
        out.append(f"#[inline(never)]\nfn part_{i}(m: &mut Mon, r: &mut Rng, n: usize) {{\n{p}\n}}\n")
    out.append("fn main() {\n    let mut m = Mon::new();\n    let n = size();\n")
    for i in range(len(parts)):
        out.append(f'    part_{i}(&mut m, &mut rng("part {i}"), n);\n')
    out.append("    m.done();\n}\n")
    return "".join(out)
