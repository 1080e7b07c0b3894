"""What C10, C11 and C12 share: systems with symbols, quantities of many dimensions, and reading text by the unit definitions."""
from decimal import Decimal as D
from fractions import Fraction as F

import si_table
import systems

SI_BASES = ["Length", "Time", "Mass", "Temperature", "Current", "AmountOfSubstance", "LuminousIntensity"]


class World:
    """A unit system as the text-based checks see it."""

    def __init__(self, mod, decl, bases, symbols, qtype, dtype, based, named):
        self.mod, self.decl, self.bases, self.symbols = mod, decl, bases, symbols
        self.qtype, self.dtype, self.based, self.named = qtype, dtype, based, named

    def helper(self):
        return (f"fn with<S, const DIM: {self.mod}::{self.dtype}>(_: {self.mod}::{self.qtype}<f64, DIM>, v: S) -> {self.mod}::{self.qtype}<S, DIM> "
                f"{{ {self.mod}::{self.qtype}::new_unchecked(v) }}\n")


def si_world():
    symbols = {}
    for s, dim, f in si_table.symbols():
        e = si_table.DIMENSIONS[dim]
        symbols[s] = systems.Val({b: F(x) for b, x in zip(SI_BASES, e)}, D(f.numerator) / D(f.denominator), 0 if s in ("m", "s", "kg", "K", "A", "mol", "cd") else 8)
    named = [{b: F(x) for b, x in zip(SI_BASES, e) if x} for e in si_table.DIMENSIONS.values()]
    return World("diman::si", "", SI_BASES, symbols, "Quantity", "Dimension", set(SI_BASES), named)


def random_world(r, rational, baseless=0.3, **kw):
    while True:
        s = systems.random_system(r, rational, baseless=baseless, prefixes=kw.pop("prefixes", 0.3), symbols=0.8, **kw)
        # factors of exactly one should be frequent: units that the text may use
        env, kinds, symbols = s.env()
        nm = systems.Names(r)
        nm.reserve(kinds)
        taken = set(symbols)
        base_units = [i.name for i in s.items if i.base]
        for _ in range(r.randint(1, 4)):
            e = systems.expression(r, base_units, rational)
            if any(n for n in str(e).split("'") if n == "num"):
                continue
            try:
                v = systems.evaluate(e, env)
            except ArithmeticError:
                continue
            if systems.fits(v, rational) and v.factor == 1:
                s.items.append(systems.Item("unit", nm.unit(), e, symbol=nm.symbol(taken, [])))
        # symbols of units that differ from the coherent one by a little: the text may not use them
        for _ in range(r.randint(1, 3)):
            f = r.choice(["1.001", "0.999", "1.0000004", "0.9999997", "1.0000000003", "0.9999999996", "1.0000000000005", "0.9999999999992"])
            e = systems.expression(r, base_units, rational) if r.random() < 0.5 else ("name", r.choice(base_units))
            e = ("bin", ("num", f), "*", ("paren", e), " ")
            try:
                if systems.fits(systems.evaluate(e, env), rational):
                    s.items.append(systems.Item("unit", nm.unit(), e, symbol=nm.symbol(taken, [])))
            except ArithmeticError:
                pass
        # nor those of units that are its negative
        for _ in range(r.randint(1, 3)):
            e = systems.expression(r, base_units, rational) if r.random() < 0.3 else ("name", r.choice(base_units))
            e = ("bin", ("num", r.choice(["-1", "-1.0"])), "*", ("paren", e), " ") if r.random() < 0.8 else ("bin", ("paren", e), "/", ("num", "-1.0"), " ")
            try:
                if systems.fits(systems.evaluate(e, env), rational):
                    s.items.append(systems.Item("unit", nm.unit(), e, symbol=nm.symbol(taken, [])))
            except ArithmeticError:
                pass
        if systems.check_names(s, {}):
            break
    env, kinds, symbols = s.env()
    named = [env[n].dims for n, k in kinds.items()]
    named = [d for i, d in enumerate(named) if d not in named[:i]]
    return World("sys", systems.module("sys", systems.permuted(s, r)), s.base_dims(), {k: env[u] for k, u in symbols.items()}, s.qtype, s.dtype,
                 {i.base for i in s.items if i.base}, named)


# the sizes an exponent may have
WIDE = [10, 12, 16, 19, 64, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 65536, 65537, 2**31 - 1, 2**31, 2**32, 2**32 + 1, 3 * 10**9]


def random_dims(r, bases, rational, wide=True):
    d = {}
    for b in r.sample(bases, min(len(bases), r.choice([1, 1, 2, 2, 3, 4, 7]))):
        k = F(r.choice([-7, -4, -3, -2, -1, -1, 1, 1, 2, 2, 3, 4, 11]))
        if rational and r.random() < 0.5:
            k = F(r.choice([-7, -5, -3, -1, 1, 2, 3, 5]), r.choice([2, 3, 4, 6, 9]))
        if wide and r.random() < 0.15:
            k = F(r.choice(WIDE) * r.choice([1, 1, -1]), r.choice([1, 1, 4, 27]) if rational else 1)
        d[b] = k
    return d


def one_of(mod, dims, bases):
    """An f64 quantity of value one and the given dimension, by multiplication, powers and roots only."""
    parts = []
    for b, x in dims.items():
        if not x:
            continue
        k, den = x.numerator, x.denominator
        one = f"{mod}::dimensions::{b}::<f64>::new_unchecked(1.0)"
        if abs(k) < 2**31:
            e = f"{one}.powi::<{k if k >= 0 else '{' + str(k) + '}'}>()"
        else:
            e = f"({one}.powi::<1048576>().powi::<{{{k // 1048576}}}>() * {one}.powi::<{k % 1048576}>())"
        while den % 2 == 0:
            e, den = e + ".sqrt()", den // 2
        while den % 3 == 0:
            e, den = e + ".cbrt()", den // 3
        assert den == 1
        parts.append(e)
    if not parts:
        b = f"{mod}::dimensions::{bases[0]}::<f64>::new_unchecked(1.0)"
        return f"({b} / {b})"
    return " * ".join(parts)


def read_units(world, tokens):
    """Dimension and factor denoted by unit tokens; None if they do not denote any."""
    total = systems.Val({}, D(1), 0)
    for t in tokens:
        sym, _, exp = t.partition("^")
        if "^" in t:
            p = read_exponent(exp)
            if p is None:
                return None
        else:
            p = F(1)
        if sym not in world.symbols:
            return None
        total = total.mul(world.symbols[sym].pow(p), 1)
    return total


def read_exponent(text):
    num, _, den = text.partition("/")
    try:
        n = int(num)
        d = int(den) if "/" in text else 1
    except ValueError:
        return None
    if "_" in text or d <= 0 or text.strip() != text:
        return None
    return F(n, d)
