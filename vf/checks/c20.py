"""C20: one program, every configuration: what it prints must not depend on the enabled features."""
import random
import re
import struct

import si_table
import systems
from common import CONFIGS, DEPS_CRATE, BuildFailure, Inconclusive, deps, pmap, rustc, seed, sh
from gen import PRELUDE, VECS, Draw

MATH = ("log2 ln log10 exp exp2 sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp_m1 ln_1p").split()

HELP = r"""
trait Out { fn out(&self) -> String; }
impl Out for f32 { fn out(&self) -> String { if self.is_nan() { "nan".into() } else { format!("{:08x}", self.to_bits()) } } }
impl Out for f64 { fn out(&self) -> String { if self.is_nan() { "nan".into() } else { format!("{:016x}", self.to_bits()) } } }
impl Out for bool { fn out(&self) -> String { self.to_string() } }
impl Out for String { fn out(&self) -> String { self.bytes().map(|b| format!("{:02x}", b)).collect() } }
impl Out for Option<std::cmp::Ordering> { fn out(&self) -> String { format!("{:?}", self) } }
impl<T: Out> Out for Option<T> { fn out(&self) -> String { match self { None => "none".into(), Some(x) => x.out() } } }
impl Out for Vec2 { fn out(&self) -> String { format!("{}+{}", self.x.out(), self.y.out()) } }
impl Out for Vec3 { fn out(&self) -> String { format!("{}+{}+{}", self.x.out(), self.y.out(), self.z.out()) } }
impl Out for DVec2 { fn out(&self) -> String { format!("{}+{}", self.x.out(), self.y.out()) } }
impl Out for DVec3 { fn out(&self) -> String { format!("{}+{}+{}", self.x.out(), self.y.out(), self.z.out()) } }
/// One line per form: its key, how it is compared, and the results in order.
fn log<T: Out>(key: &str, ulps: u32, results: impl Iterator<Item = T>) {
    let v: Vec<String> = results.map(|x| x.out()).collect();
    println!("{}\t{}\t{}", key, ulps, v.join(","));
}
fn each<S: Gen, T: Out>(key: &str, ulps: u32, p: &[S], f: impl Fn(S) -> T) {
    log(key, ulps, p.iter().map(|&a| match attempt(|| f(a)) { Ok(x) => Some(x), Err(_) => None }));
}
fn pairs<S: Gen, T: Out>(key: &str, ulps: u32, p: &[S], f: impl Fn(S, S) -> T) {
    log(key, ulps, pairing(p, p, 1200).into_iter().map(|(a, b)| match attempt(|| f(a, b)) { Ok(x) => Some(x), Err(_) => None }));
}
"""

# A system of literal factors: the same bits everywhere
FIXED = """mod fix { diman::unit_system!(
    quantity_type Quantity; dimension_type Dimension;
    dimension Length; dimension Time; dimension Mass; dimension Dimensionless = 1; dimension Area = Length^2; dimension Volume = Length^3; dimension Velocity = Length / Time; dimension Force = Mass * Length / Time^2;
    #[base(Length)] #[symbol(m)] #[metric_prefixes] unit meters; #[base(Time)] #[symbol(s)] #[prefix(milli)] #[alias(secs)] unit seconds; #[base(Mass)] #[symbol(g)] #[prefix(kilo)] unit grams;
    #[symbol(ft)] unit feet: Length = 0.3048 * meters; #[symbol(min)] unit minutes: Time = 60 * seconds; #[symbol(h)] unit hours: Time = 60 * minutes; #[symbol(lb)] unit pounds: Mass = 453.59237 * grams;
    #[symbol(pct)] unit percent: Dimensionless = 0.01; unit knots: Velocity = 0.514444 * meters / seconds; #[symbol(dyne)] unit dynes: Force = 1.0e-2 * grams * meters / seconds / seconds; #[symbol(ly)] unit lightyears = 9.4607304725808e15 * meters;
    constant C: Velocity = 299792458 * meters / seconds; constant TINY = 1.6e-19 * grams; constant NEG = -2.5 * seconds;
); }
"""


# Factors of any size and sign, and powers of them
LITERALS = ["1e-40", "5e-324", "-1e-310", "1e-46", "-7.0064923216240854e-46", "1.7e308", "-3.4e38", "4e38", "1e300", "-1e-300", "0.1", "-0.3", "123456789.123456789", "9007199254740993", "1.1754942e-38"]
BASES = ["-2.0", "-0.3", "3.0", "1.1", "0.7", "-10"]


def extremes():
    units = [(f"lit{k}", x, 0) for k, x in enumerate(LITERALS)]
    for k, x in enumerate(BASES):
        units.append((f"root{k}", x, 0))
        units += [(f"pow{k}_{p + 9}", f"root{k}^{p}", 40) for p in (-5, -3, -2, -1, 0, 1, 2, 3, 7)]
        units += [(f"both{k}", f"lit10 / root{k}^3 * root{(k + 1) % len(BASES)}^-2", 40)]
    items = "".join(f"unit {n}: Length = {e}{' * meters' if not t else ''}; " if not t else f"unit {n} = {e}; " for n, e, t in units if not n.startswith("root"))
    items += "".join(f"unit {n} = {e}; " for n, e, t in units if n.startswith("root"))
    return units, "mod ext { diman::unit_system!(quantity_type Quantity; dimension_type Dimension; dimension Length; #[base(Length)] #[symbol(m)] unit meters; " + items.replace("lit10 /", "0.1 /") + "); }\n"


def extreme(S):
    b = f"let p: Vec<{S}> = vec![1.0, -2.5, 7.0e3, 0.3];\n"
    for n, _, ulps in extremes()[0]:
        for form, e in ((f"v*{n}", f"a * ext::units::{n}"), (f"v/{n}", f"a / ext::units::{n}"), (f"{n}/v", f"ext::units::{n} / a"), (f"new {n}", f"ext::units::{n}.new(a)")):
            b += f'each("{S} ext {form}", {ulps}, &p, |a: {S}| ({e}).value_unchecked());\n'
    return b


def arithmetic(S, mod="fix"):
    """Every operator of C03, every comparison of C04, in a system expanded here (with std at hand) and in diman's own."""
    b = f"let p = {S}::pool(&mut rng(\"{S}\"), n);\n"
    wrap = lambda d, a: f"{mod}::dimensions::{d}::<{S}>::new_unchecked({a})"
    L, V, D = "Length", "Velocity", "Dimensionless"
    vec = S in VECS
    for op in "+-" if vec else "+-*/":
        for ref in ("", "&"):
            b += f'pairs("{mod} {S} q{op}{ref}q", 0, &p, |a: {S}, b: {S}| ({ref}{wrap(L, "a")} {op} {ref}{wrap(L if op in "+-" else V, "b")}).value_unchecked());\n'
        b += f'pairs("{mod} {S} q{op}=q", 0, &p, |a: {S}, b: {S}| {{ let mut x = {wrap(L, "a")}; x {op}= {wrap(L if op in "+-" else D, "b")}; x.value_unchecked() }});\n' if op in "+-" else ""
    F = VECS[S][0] if vec else S
    b += f'pairs("{mod} {S} q*s", 0, &p, |a: {S}, b: {S}| ({wrap(L, "a")} * b{".x" if vec else ""}).value_unchecked());\n'
    b += f'pairs("{mod} {S} q/s", 0, &p, |a: {S}, b: {S}| ({wrap(L, "a")} / b{".y" if vec else ""}).value_unchecked());\n'
    b += f'pairs("{mod} {S} s*q", 0, &p, |a: {S}, b: {S}| (b * {mod + "::dimensions::Length::<" + F + ">::new_unchecked(a.x)" if vec else wrap(L, "a")}).value_unchecked());\n'
    b += f'each("{mod} {S} -q", 0, &p, |a: {S}| (-{wrap(L, "a")}).value_unchecked());\n'
    b += f'each("{mod} {S} abs", 0, &p, |a: {S}| {wrap(L, "a")}.abs().value_unchecked());\n'
    b += f'pairs("{mod} {S} sum", 0, &p, |a: {S}, b: {S}| [{wrap(L, "a")}, {wrap(L, "b")}, {wrap(L, "a")}].into_iter().sum::<{mod}::dimensions::Length<{S}>>().value_unchecked(){"" if vec else " + 0.0"});\n'
    for op in ("==", "!=") if vec else ("==", "!=", "<", "<=", ">", ">="):
        b += f'pairs("{mod} {S} q{op}q", 0, &p, |a: {S}, b: {S}| {wrap(L, "a")} {op} {wrap(L, "b")});\n'
    b += f'each("{mod} {S} text", 0, &p, |a: {S}| format!("{{:?}}", {wrap("Force", "a")}).split_whitespace().map(|t| t.to_string()).collect::<std::collections::BTreeSet<String>>().into_iter().collect::<Vec<_>>().join(" "));\n'
    b += f'each("{mod} {S} formatted", 0, &p, |a: {S}| format!("{{:9.3?}}", {wrap(L, "a")}));\n'
    if vec:
        b += f'each("{mod} {S} components", 0, &p, |a: {S}| {wrap(L, "a")}.x().value_unchecked());\n'
        b += f'each("{mod} {S} last", 0, &p, |a: {S}| {wrap(L, "a")}.{"z" if S[-1] == "3" else "y"}().value_unchecked());\n'
        m = f"let p: Vec<{S}> = (0..n).map(|_| {S}::moderate(&mut rng(\"m\"))).collect();\n"
        b += "{" + m + f'each("{mod} {S} length", 4, &p, |a: {S}| {wrap(L, "a")}.length().value_unchecked());\n'
        b += f'each("{mod} {S} normalize", 4, &p, |a: {S}| {wrap(L, "a")}.normalize().value());\n'
        b += f'pairs("{mod} {S} dot", 4, &p, |a: {S}, b: {S}| {wrap(L, "a.abs()")}.dot({wrap(V, "b.abs()")}).value_unchecked());\n}}\n'
        b += f'pairs("{mod} {S} min", 0, &p, |a: {S}, b: {S}| {wrap(L, "a")}.min({wrap(L, "b")}).value_unchecked() + {S}::splat(0.0));\n'
        return b
    b += f'pairs("{mod} {S} partial_cmp", 0, &p, |a: {S}, b: {S}| {wrap(L, "a")}.partial_cmp(&{wrap(L, "b")}));\n'
    for f in ("min", "max"):
        b += f'pairs("{mod} {S} {f}", 0, &p, |a: {S}, b: {S}| {wrap(L, "a")}.{f}({wrap(L, "b")}).value_unchecked() + 0.0);\n'
    b += f'pairs("{mod} {S} clamp", 0, &p, |a: {S}, b: {S}| {wrap(L, "a")}.clamp({wrap(L, "b")}, {wrap(L, "b")} + {wrap(L, "7.5")}).value_unchecked() + 0.0);\n'
    for f in ("is_positive", "is_positive_or_zero", "is_negative", "is_negative_or_zero", "is_nan"):
        b += f'each("{mod} {S} {f}", 0, &p, |a: {S}| {wrap(V, "a")}.{f}());\n'
    b += f'each("{mod} {S} number and dimensionless", 0, &p, |a: {S}| ({wrap(D, "a")} + 1.5).value());\n'
    b += f'each("{mod} {S} deref", 0, &p, |a: {S}| {wrap(D, "a")}.is_finite());\n'
    # powers, on moderate values
    b += f'let p: Vec<{S}> = {{ let mut r = rng("pow {S}"); let mut v = vec![0.0, -0.0, 1.0, -1.0, 2.0, {S}::INFINITY, {S}::NEG_INFINITY, {S}::NAN]; v.extend((0..n * 3).map(|_| {S}::moderate(&mut r))); v }};\n'
    for f in ("squared()", "cubed()", "powi::<4>()", "powi::<1>()", "powi::<0>()", "powi::<{-1}>()", "powi::<{-3}>()", "powi::<7>()"):
        b += f'each("{mod} {S} {f}", 16, &p, |a: {S}| {wrap(L, "a")}.{f}.value_unchecked());\n'
    if mod != "fix":
        return b
    # units
    for u, d in (("meters", L), ("kilometers", L), ("attometers", L), ("feet", L), ("secs", "Time"), ("hours", "Time"), ("pounds", "Mass"), ("percent", D), ("knots", V), ("dynes", "Force"), ("lightyears", L)):
        w = f"fix::units::{u}"
        for form, e in ((f"v*{u}", f"(a * {w})"), (f"{u}*v", f"({w} * a)"), (f"v/{u}", f"(a / {w})"), (f"{u}/v", f"({w} / a)"), (f"new {u}", f"{w}.new(a)"), (f"q*{u}", f'({wrap("Mass", "a")} * {w})'), (f"q/{u}", f'({wrap("Mass", "a")} / {w})'),
                        (f"{u}/q", f'({w} / {wrap("Mass", "a")})')):
            b += f'each("{mod} {S} {form}", 0, &p, |a: {S}| {e}.value_unchecked());\n'
        b += f'each("{mod} {S} in {u}", 0, &p, |a: {S}| {wrap(d, "a")}.value_in({w}));\n'
    for k in ("C", "TINY", "NEG"):
        b += f'each("{mod} {S} {k}", 0, &p, |a: {S}| (a * fix::constants::{k}).value_unchecked());\n'
    b += f'each("{mod} {S} composed", 2, &p, |a: {S}| (fix::units::feet * fix::units::pounds).new(a).value_unchecked());\n'
    b += f'each("{mod} {S} in composed", 2, &p, |a: {S}| {wrap(V, "a")}.value_in(fix::units::feet / fix::units::hours));\n'
    return b


def math(S, mod="fix"):
    wrap = lambda d, a: f"{mod}::dimensions::{d}::<{S}>::new_unchecked({a})"
    b = f"""let p: Vec<{S}> = {{ let mut r = rng("math {S}"); let mut v = vec![0.0, -0.0, 1.0, -1.0, {S}::INFINITY, {S}::NEG_INFINITY, {S}::NAN, 2.0, 100.0, -100.0];
v.extend((0..n * 4).map(|_| {{ let k = r.below(5) as i32 - 3; (({S}::moderate(&mut r) as f64) * 10f64.powi(k)) as {S} }})); v.extend((-24..=24).map(|k| k as {S} / 8.0)); v }};\n"""
    for f, d in (("sqrt", "Area"), ("sqrt", "Dimensionless"), ("cbrt", "Volume"), ("cbrt", "Dimensionless")):
        b += f'each("{mod} {S} {f} {d}", 2, &p, |a: {S}| {wrap(d, "a")}.{f}().value_unchecked());\n'
    for f in MATH:
        # libm's acosh is arbitrary below one; std's atanh loses digits next to minus one
        a = "if a < 1.0 { 1.0 - a } else { a }" if f == "acosh" else "if a.abs() > 0.9 && a.abs() < 1.0 { a * 0.5 } else { a }" if f == "atanh" else "a"
        b += f'each("{mod} {S} {f}", 1000, &p, |a: {S}| {wrap("Dimensionless", a)}.{f}().value());\n'
    for f in ("ceil", "floor"):
        b += f'each("{mod} {S} {f}", 0, &p, |a: {S}| {wrap("Dimensionless", "a")}.{f}().value());\n'
    return b


def catalogue(S):
    b = f"let p: Vec<{S}> = vec![1.0, -2.5, 7.0e3, 0.3];\n"
    for k, (name, dim, f) in enumerate(si_table.names()):
        if k % 7 == 0 or 1e-3 < f < 1e3:
            b += f'each("{S} si {name}", 8, &p, |a: {S}| (a * diman::si::units::{name}).value_unchecked());\n'
            if k % 14 == 0:
                b += f'each("{S} in si {name}", 8, &p, |a: {S}| diman::si::dimensions::{dim}::<{S}>::new_unchecked(a).value_in(diman::si::units::{name}));\n'
    for name, (dim, f) in si_table.CONSTANTS.items():
        b += f'each("{S} si {name}", 8, &p, |a: {S}| (a * diman::si::constants::{name}).value_unchecked());\n' if S == "f64" or 1e-30 < abs(f) < 1e30 else ""
    b += f'each("{S} si text", 0, &p, |a: {S}| format!("{{:?}}", diman::si::dimensions::ThermalConductivity::<{S}>::new_unchecked(a)).split_whitespace().map(|t| t.to_string()).collect::<std::collections::BTreeSet<String>>().into_iter().collect::<Vec<_>>().join(" "));\n'
    return b


def own(S, r, mod, s):
    """The units of a random system."""
    env_, kinds, symbols = s.env()
    names = [n for n, k in kinds.items() if k in ("unit", "constant")]
    r.shuffle(names)
    b = f"let p: Vec<{S}> = vec![1.0, -2.5, 7.0e3, 0.3];\n"
    for n in names[:40]:
        v = env_[n]
        if S == "f32" and not 1e-30 < abs(v.factor) < 1e30 or v.extreme > 300 or not 1e-290 < abs(v.factor) < 1e290:
            continue
        b += f'each("{S} {mod} {n}", {int(2 * v.err + 8)}, &p, |a: {S}| (a * {mod}::{kinds[n]}s::{n}).value_unchecked());\n'
        # what it prints tells the dimension
        b += f'each("{S} {mod} {n} text", 0, &p, |a: {S}| format!("{{:?}}", 1.0{S} * {mod}::{kinds[n]}s::{n}).split_whitespace().skip(1).map(|t| t.to_string()).collect::<std::collections::BTreeSet<String>>().into_iter().collect::<Vec<_>>().join(" "));\n'
    return b


def fractional(S, mod):
    b = f'let p: Vec<{S}> = {{ let mut r = rng("frac {S}"); (0..n * 2).map(|_| {S}::moderate(&mut r).abs()).collect() }};\n'
    wrap = lambda d, a: f"{mod}::dimensions::{d}::<{S}>::new_unchecked({a})"
    sort = '.split_whitespace().skip(1).map(|t| t.to_string()).collect::<std::collections::BTreeSet<String>>().into_iter().collect::<Vec<_>>().join(" ")'
    for d, e in (("Length", "sqrt()"), ("Velocity", "cbrt()"), ("Force", "sqrt().cbrt()"), ("Time", "cbrt().powi::<{-2}>()"), ("Mass", "sqrt().cubed()")):
        b += f'each("{mod} {S} {d} {e}", 16, &p, |a: {S}| {wrap(d, "a")}.{e}.value_unchecked());\n'
        b += f'each("{mod} {S} {d} {e} text", 0, &p, |a: {S}| format!("{{:?}}", {wrap(d, "a")}.{e}){sort});\n'
    return b


def serde(storages):
    b = 'fn back<T: serde::de::DeserializeOwned>(t: &str) -> Option<T> { serde_json::from_str(&format!("\\"{t}\\"")).ok() }\n'
    for S in storages:
        if S in VECS:
            k = int(S[-1])
            cases = [("Length", [f"({' '.join(['1.5', '-2e3', '0.1'][:k])}) m", f"({' '.join(['1', '2', '3'][:k])}) ft", "(1) m", f"({' '.join(['nan', '0', '0'][:k])}) km"], 0)]
        else:
            cases = [("Length", ["1 m", "2.5 km", "-0.1 ft", "3 s", "1e5 ly", "7", "inf m", "1 m x", "12 am"], 0), ("Velocity", ["1 m s^-1", "3.6 km h^-1", "1 ft min^-1", "2 m s"], 8), ("Dimensionless", ["5", "5 pct", "nan", "1 m m^-1", ""], 2),
                     ("Force", ["1 dyne", "2 kg m s^-2", "1 lb ft min^-2"], 8)]
        for d, ts, ulps in cases:
            b += f'log("{S} serde read {d}", {ulps}, {ts!r}.iter().map(|t| back::<fix::dimensions::{d}<{S}>>(t).map(|q| q.value_unchecked())));\n'.replace("'", '"')
            b += f'each("{S} serde write {d}", 0, &{S}::pool(&mut rng("serde {S}"), n), |a: {S}| serde_json::to_string(&fix::dimensions::Length::<{S}>::new_unchecked(a)).unwrap());\n'
    return b


def sampling(S):
    return f"""{{ use rand::{{Rng as _, SeedableRng}}; let mut g = rand::rngs::StdRng::seed_from_u64(7);
log("{S} rand", 0, (0..n * 5).map(|i| g.gen_range(fix::dimensions::Length::<{S}>::new_unchecked(-2.5)..fix::dimensions::Length::<{S}>::new_unchecked(i as {S} + 1.0)).value_unchecked()));
log("{S} rand inclusive", 0, (0..n * 5).map(|i| g.gen_range(fix::dimensions::Force::<{S}>::new_unchecked(0.25)..=fix::dimensions::Force::<{S}>::new_unchecked(i as {S} + 1.0)).value_unchecked())); }}
"""


def program(systems_, cfg):
    """The sections that a configuration offers. Sections are the same text in every configuration that has them."""
    feats = set(CONFIGS[cfg][0])
    std = "std" in feats or "num-traits-libm" in feats
    rational = "rational-dimensions" in feats
    floats = [S for S in ("f32", "f64") if S in feats]
    vecs = [S for S in VECS if "glam-" + S.lower() in feats]
    mods, parts = FIXED + extremes()[1], []
    for S in floats + vecs:
        parts.append(arithmetic(S))
        if "si" in feats:
            parts.append(arithmetic(S, "diman::si"))
    for S in floats:
        parts.append(extreme(S))
        if std:
            parts.append(math(S))
            if "si" in feats:
                parts.append(math(S, "diman::si"))
        if "si" in feats:
            parts.append(catalogue(S))
        if rational:
            parts.append(fractional(S, "fix"))
            if "si" in feats:
                parts.append(fractional(S, "diman::si"))
        if "rand" in feats:
            parts.append(sampling(S))
    if "serde" in feats:
        parts.append(serde(floats + vecs))
    for k, (s, rat) in enumerate(systems_):
        if rat and not rational:
            continue
        mods += systems.module(f"own{k}", s)
        for S in floats:
            parts.append(own(S, random.Random(f"C20/{seed()}/{k}"), f"own{k}", s))
    body = "".join(f"#[inline(never)] fn part_{i}(n: usize) {{\n{p}\n}}\n" for i, p in enumerate(parts))
    return (PRELUDE + mods + HELP + body + "fn main() {\n    std::panic::set_hook(Box::new(|_| {}));\n    let n = size();\n"
            + "".join(f"    part_{i}(n);\n" for i in range(len(parts))) + '    println!("end");\n}\n')


def number(text):
    """The float behind the bits, or None."""
    if len(text) == 8:
        return struct.unpack(">f", bytes.fromhex(text))[0], 2.0**-23, 2.0**-149
    if len(text) == 16:
        return struct.unpack(">d", bytes.fromhex(text))[0], 2.0**-52, 2.0**-1074
    return None


def agree(a, b, ulps):
    if a == b:
        return True
    if ulps == 0:
        return False
    x, y = a.split("+"), b.split("+")
    if len(x) != len(y):
        return False
    for s, t in zip(x, y):
        if s == t:
            continue
        try:
            u, v = number(s), number(t)
        except ValueError:
            return False
        if u is None or v is None or len(s) != len(t):
            return False
        (p, eps, tiny), (q, _, _) = u, v
        if p != p or q != q or abs(p) == float("inf") or abs(q) == float("inf"):
            return False
        # 1000: transcendental functions: up to rounding, relative or (where std itself loses digits) absolute
        tol = ulps * eps * max(abs(p), abs(q)) + 2 * tiny if ulps != 1000 else 24 * eps * max(abs(p), abs(q), 1.0 if min(abs(p), abs(q)) > 0 else 0.0)
        if abs(p - q) > tol:
            return False
    return True


# A library without std that defines and uses a system of its own; linked into a program without std to see that none is pulled in
NOSTD = """#![no_std]
#![no_main]
#![allow(incomplete_features, internal_features, warnings)]
#![feature(generic_const_exprs, adt_const_params, lang_items)]
mod own { diman::unit_system!(
    quantity_type Quantity; dimension_type Dimension; dimension Length; dimension Time; dimension Velocity = Length / Time; dimension Area = Length^2;
    #[base(Length)] #[symbol(m)] #[metric_prefixes] unit meters; #[base(Time)] #[symbol(s)] unit seconds; unit feet: Length = 0.3048 * meters; constant C: Velocity = 299792458 * meters / seconds;
); }
struct Sink([u8; 200], usize);
impl core::fmt::Write for Sink { fn write_str(&mut self, s: &str) -> core::fmt::Result { for b in s.bytes() { if self.1 < 200 { self.0[self.1] = b; self.1 += 1; } } Ok(()) } }
fn work(x: f64) -> f64 {
    use core::fmt::Write;
    let q = x * own::units::feet;
    let t = 3.0 * own::units::seconds;
    let v: own::dimensions::Velocity<f64> = q / t;
    let a: own::dimensions::Area<f64> = q.squared();
    let mut s = Sink([0; 200], 0);
    let _ = write!(s, "{:?}", v);
    let l = a / q;
    MORE
    (v.value_in(own::units::meters / own::units::seconds) + s.1 as f64 + l.value_in(own::units::kilometers) + [q, q].iter().map(|x| x.value_unchecked()).sum::<f64>() + (v + 2.0f64 * own::constants::C).value_unchecked()).max(0.0)
}
#[no_mangle] pub extern "C" fn main(_: i32, _: *const *const u8) -> i32 { if work(2.0) > 0.0 { 0 } else { 3 } }
#[panic_handler] fn panic(_: &core::panic::PanicInfo) -> ! { loop {} }
#[lang = "eh_personality"] extern "C" fn rust_eh_personality() {}
#[no_mangle] extern "C" fn _Unwind_Resume() -> ! { loop {} }
#[link(name = "c")] extern "C" {}
"""

FEATURES = ["f32", "f64", "si", "std", "num-traits-libm", "glam-vec2", "glam-vec3", "glam-dvec2", "glam-dvec3", "serde", "rand", "mpi", "hdf5", "rational-dimensions"]


def combinations(r, n):
    """Feature sets in which every pair of features occurs both ways after a few dozen; rational dimensions need a math library."""
    out = []
    for _ in range(n):
        p = r.choice([0.25, 0.5, 0.75])
        s = {f for f in FEATURES if r.random() < p}
        if not s & {"f32", "f64"}:
            s.add(r.choice(["f32", "f64"]))
        if "rational-dimensions" in s and not s & {"std", "num-traits-libm"}:
            s.add(r.choice(["std", "num-traits-libm"]))
        out.append(sorted(s))
    return out


def run(c):
    c.rule = ("one observation = one result of one form on one input in one configuration, compared with the same result in the reference configuration (bits; a few ulp for powers, roots and "
              "transcendental functions); or one feature set that builds; distinct = distinct (configuration, form)")
    c.assumptions = ["tolerances: 16 ulp for powers, 2 for roots, 24 for transcendental functions (absolute below one, where std itself loses digits)", "rational dimensions need std or libm, as the crate says", "the libm crate is trusted, except for acosh below one, which is not asked for"]
    # besides the usual configurations, random feature sets and ones with a single float or vector type
    sets = combinations(Draw(c, "features").r, c.pick(6, 60)) + [["f32"], ["f64"], ["f32", "serde", "si"], ["f64", "num-traits-libm", "rational-dimensions"]]
    sets += [["glam-vec2", "std", "serde"], ["glam-dvec2", "rand"], ["glam-vec3", "mpi", "hdf5"], ["glam-dvec3", "num-traits-libm", "serde"]]
    for k, s in enumerate(sets):
        full = sorted(set(s) | {"f64" if "-d" in f else "f32" for f in s if f.startswith("glam-")})
        CONFIGS[f"set{k}"] = (full, ["with" + f for f in ("mpi", "hdf5") if f in full])
    c.extra["feature sets"] = {k: v[0] for k, v in CONFIGS.items()}
    cfgs = list(CONFIGS)
    ds = {}
    for cfg in cfgs:
        try:
            ds[cfg] = deps(cfg)
        except BuildFailure as e:
            c.violate("diman does not build in a documented configuration", {"config": cfg, "features": CONFIGS[cfg][0], "stderr": e.text[-4000:]})
    c.event("configuration builds", n=len(ds))
    own_systems = []
    for k in range(c.pick(3, 16)):
        draw = Draw(c, f"own{k}")
        rat = k % 3 == 2
        while True:
            s = systems.random_system(draw.r, rat, nbase=draw.r.randint(1, 4), nunits=draw.r.randint(4, 9), prefixes=0.3, symbols=0.7, baseless=0.0)
            if systems.check_names(s, {}):
                break
        own_systems.append((s, rat))

    def one(cfg):
        if cfg not in ds:
            return cfg, None
        comp = c.compile(c.write(f"{cfg}.rs", program(own_systems, cfg)), ds[cfg])
        if not comp.ok:
            return cfg, None
        rc, lines, _, _ = c.run(comp.out, [c.seed, c.pick(24, 400)], label=cfg, timeout=600)
        return cfg, [x.split("\t") for x in lines]

    results = dict(pmap(one, cfgs))
    reference = {}
    for cfg in ["std", "rat", *cfgs]:
        for row in results.get(cfg) or []:
            if len(row) == 3 and row[0] not in reference:
                reference[row[0]] = (cfg, row[2].split(","))
    close = 0
    for cfg in cfgs:
        rows = results.get(cfg)
        if rows is None:
            continue
        if not rows or rows[-1] != ["end"]:
            c.violate("the program did not come to its end", {"config": cfg}, [c.path(f"{cfg}.rs")])
        for row in rows:
            if len(row) != 3:
                continue
            key, ulps, values = row[0], int(row[1]), row[2].split(",")
            ref_cfg, ref = reference[key]
            if ref_cfg == cfg:
                continue
            c.event(f"{cfg}: {'same bits' if ulps == 0 else 'up to rounding'}", (cfg, key), n=len(values))
            if len(values) != len(ref):
                c.violate("a form has another number of results", {"config": cfg, "form": key}, [c.path(f"{cfg}.rs")])
                continue
            for i, (a, b) in enumerate(zip(ref, values)):
                close += a != b
                if not agree(a, b, ulps):
                    c.violate("a result depends on the enabled features", {"form": key, "input": i, ref_cfg: a, cfg: b, "tolerance": ulps}, [c.path(f"{cfg}.rs")])
                    break
    c.extra["forms"] = len(reference)
    c.extra["results equal up to rounding only"] = close

    # without std
    for cfg, more in (("nostd", ""), ("libm", "let q = own::units::meters.new(a.sqrt().value_unchecked());")):
        if cfg not in ds:
            continue
        src = c.write(f"bare_{cfg}.rs", NOSTD.replace("MORE", more))
        comp = rustc(src, ds[cfg], extra=["-Cpanic=abort"], opt=1)
        c.event("program without std", cfg)
        if not comp.ok:
            why = " ".join(e.message for e in comp.errors)
            if re.search(r"linking with|linker", why) or not comp.errors:
                raise Inconclusive("the program without std does not link: " + (comp.errors[0].rendered[-600:] if comp.errors else comp.stderr[-500:]))
            c.violate("a program without std cannot use diman", {"config": cfg, "errors": [e.rendered[:1500] for e in comp.errors[:3]]}, [src])
        else:
            rc, _, _ = sh([comp.out], 60)
            if rc != 0:
                c.violate("a program without std computes something else", {"config": cfg, "rc": rc}, [src])

    return 20000
