"""C05: every way of applying a unit, against multiplication and division by its factor."""
import math
from fractions import Fraction

import si_table as t
from common import deps, pmap
from gen import FLOATS, PRELUDE, VECS, Draw, program

BASES = [("Len", "ma", "L"), ("Tim", "sa", "T"), ("Mas", "ga", "M"), ("Ang", "ra", "A")]

HELP = """
fn up<S: Gen>(r: &mut Rng, n: usize) -> Vec<S> { S::pool(r, n) }
fn mods<S: Gen>(r: &mut Rng, n: usize) -> Vec<S> { (0..n).map(|_| S::moderate(r)).collect() }

/// The factor applied in double precision, then rounded to the storage type: what every form must agree with.
trait Scale: Raw { fn times(self, f: f64) -> Self; fn over(self, f: f64) -> Self; fn under(self, f: f64) -> Self; }
impl Scale for f64 { fn times(self, f: f64) -> f64 { self * f } fn over(self, f: f64) -> f64 { self / f } fn under(self, f: f64) -> f64 { f / self } }
impl Scale for f32 { fn times(self, f: f64) -> f32 { (self as f64 * f) as f32 } fn over(self, f: f64) -> f32 { (self as f64 / f) as f32 } fn under(self, f: f64) -> f32 { (f / self as f64) as f32 } }
macro_rules! scale_vec { ($v:ident, $($c:ident),*) => { impl Scale for $v {
    fn times(self, f: f64) -> $v { $v::new($(self.$c.times(f)),*) }
    fn over(self, f: f64) -> $v { $v::new($(self.$c.over(f)),*) }
    fn under(self, f: f64) -> $v { $v::new($(self.$c.under(f)),*) }
} } }
scale_vec!(Vec2, x, y); scale_vec!(Vec3, x, y, z); scale_vec!(DVec2, x, y); scale_vec!(DVec3, x, y, z);

const ULPS: u64 = 4;

/// Bare storage with a unit `$u` (an expression giving a fresh unit) of factor `$f`.
macro_rules! bare { ($m:ident, $p:ident, $S:ty, $kind:expr, $u:expr, $f:expr) => {
    $m.each_close(concat!($kind, " v*u ", stringify!($S)), &$p, ULPS, |a: $S| a.times($f), |a: $S| (a * $u).value_unchecked());
    $m.each_close(concat!($kind, " u*v ", stringify!($S)), &$p, ULPS, |a: $S| a.times($f), |a: $S| ($u * a).value_unchecked());
    $m.each_close(concat!($kind, " v/u ", stringify!($S)), &$p, ULPS, |a: $S| a.over($f), |a: $S| (a / $u).value_unchecked());
    $m.each_close(concat!($kind, " u/v ", stringify!($S)), &$p, ULPS, |a: $S| a.under($f), |a: $S| ($u / a).value_unchecked());
} }
macro_rules! fresh { ($m:ident, $p:ident, $S:ty, $kind:expr, $u:expr, $f:expr) => {
    $m.each_close(concat!($kind, " u.new(v) ", stringify!($S)), &$p, ULPS, |a: $S| a.times($f), |a: $S| $u.new(a).value_unchecked());
    let mods = mods::<$S>(&mut rng(concat!($kind, stringify!($S))), 24);
    $m.each_close(concat!($kind, " round trip new ", stringify!($S)), &mods, ULPS, |a: $S| a, |a: $S| $u.new(a).value_in($u));
    $m.each_close(concat!($kind, " round trip * ", stringify!($S)), &mods, ULPS, |a: $S| a, |a: $S| (a * $u).value_in($u));
    $m.each_close(concat!($kind, " round trip *u/u ", stringify!($S)), &mods, ULPS, |a: $S| a, |a: $S| (a * $u / $u).value());
} }
/// A quantity of the unrelated dimension `$D` with a unit.
macro_rules! quantity { ($m:ident, $p:ident, $S:ty, $kind:expr, $u:expr, $f:expr, $D:ident) => {
    $m.each_close(concat!($kind, " q*u ", stringify!($S)), &$p, ULPS, |a: $S| a.times($f), |a: $S| ($D::<$S>::new_unchecked(a) * $u).value_unchecked());
    $m.each_close(concat!($kind, " u*q ", stringify!($S)), &$p, ULPS, |a: $S| a.times($f), |a: $S| ($u * $D::<$S>::new_unchecked(a)).value_unchecked());
    $m.each_close(concat!($kind, " q/u ", stringify!($S)), &$p, ULPS, |a: $S| a.over($f), |a: $S| ($D::<$S>::new_unchecked(a) / $u).value_unchecked());
    $m.each_close(concat!($kind, " u/q ", stringify!($S)), &$p, ULPS, |a: $S| a.under($f), |a: $S| ($u / $D::<$S>::new_unchecked(a)).value_unchecked());
} }
macro_rules! value_in { ($m:ident, $p:ident, $S:ty, $kind:expr, $u:expr, $f:expr, $D:ident) => {
    $m.each_close(concat!($kind, " q.value_in(u) ", stringify!($S)), &$p, ULPS, |a: $S| a.over($f), |a: $S| $D::<$S>::new_unchecked(a).value_in($u));
} }
"""

HELP += """
/// Powers of two, for which nothing rounds however small or large the factor is.
trait Pow2: Raw { fn pow2(k: i32) -> Self; fn factor(f: f64) -> f64; const MIN: f64; const MAX: f64; const K: i32; }
impl Pow2 for f64 { fn pow2(k: i32) -> f64 { 2f64.powi(k / 2) * 2f64.powi(k - k / 2) } fn factor(f: f64) -> f64 { f } const MIN: f64 = f64::MIN_POSITIVE; const MAX: f64 = f64::MAX; const K: i32 = 1000; }
impl Pow2 for f32 { fn pow2(k: i32) -> f32 { 2f32.powi(k / 2) * 2f32.powi(k - k / 2) } fn factor(f: f64) -> f64 { f as f32 as f64 } const MIN: f64 = f32::MIN_POSITIVE as f64; const MAX: f64 = f32::MAX as f64; const K: i32 = 120; }
/// The powers of two whose product with (quotient by) the factor is exact.
fn exact<S: Pow2 + Into<f64> + Copy>(r: &mut Rng, n: usize, f: f64, over: bool) -> Vec<S> {
    let tiny = S::factor(f).abs() < S::MIN;
    let mut v = vec![];
    let mut tries = 0;
    while v.len() < n && tries < 100 * n {
        tries += 1;
        let k = r.below(2 * S::K as u64 + 1) as i32 - S::K;
        let x = S::pow2(k);
        let xf: f64 = x.into();
        let y = if over { (xf / S::factor(f)).abs() } else { (xf * S::factor(f)).abs() };
        let ok = if over { y <= S::MAX && y >= S::MIN } else if tiny { k >= 0 && y <= S::MAX } else { y <= S::MAX && y >= S::MIN };
        if ok { v.push(x); }
    }
    v
}
macro_rules! extreme { ($m:ident, $S:ty, $u:expr, $f:expr, $D:ident) => {
    let w = exact::<$S>(&mut rng(concat!("extreme", stringify!($S))), 40, $f, false);
    let f = <$S>::factor($f);
    $m.each_close(concat!("extreme u.new(v) ", stringify!($S)), &w, ULPS, |a: $S| a.times(f), |a: $S| $u.new(a).value_unchecked());
    $m.each_close(concat!("extreme u*v ", stringify!($S)), &w, ULPS, |a: $S| a.times(f), |a: $S| ($u * a).value_unchecked());
    $m.each_close(concat!("extreme round trip new ", stringify!($S)), &w, ULPS, |a: $S| a, |a: $S| $u.new(a).value_in($u));
    $m.each_close(concat!("extreme round trip * ", stringify!($S)), &w, ULPS, |a: $S| a, |a: $S| (a * $u).value_in($u));
    $m.each_close(concat!("extreme round trip *u/u ", stringify!($S)), &w, ULPS, |a: $S| a, |a: $S| (a * $u / $u).value());
    let w = exact::<$S>(&mut rng(concat!("extreme over", stringify!($S))), 40, $f, true);
    $m.each_close(concat!("extreme v/u ", stringify!($S)), &w, ULPS, |a: $S| a.over(f), |a: $S| (a / $u).value_unchecked());
    $m.each_close(concat!("extreme value_in ", stringify!($S)), &w, ULPS, |a: $S| a.over(f), |a: $S| $D::<$S>::new_unchecked(a).value_in($u));
} }
"""


def extremes(draw, n):
    """Units whose factors are near the smallest and largest numbers of the storage types."""
    lines, parts = [], []
    for i in range(n):
        S = ("f32", "f64")[i % 2]
        lo, hi = ((-44, -39), (37, 38)) if S == "f32" else ((-322, -308), (305, 307))
        where = draw.r.choice(["low", "low", "high"])
        a, b = lo if where == "low" else hi
        f = draw.r.choice([1, 1, -1]) * draw.r.uniform(1.5, 9.5 if where == "low" else 3) * 10.0 ** draw.r.randint(a, b)
        lines.append(f"unit x{i}: Len = {rust(f)} * ma;")
        parts.append(f"extreme!(m, {S}, sys::units::x{i}, {rust(f)}, Len);\n")
    text = ("mod sys {\n    diman::unit_system! {\n        quantity_type Quantity; dimension_type Dimension; dimension Len; dimension Dimensionless = 1;\n"
            "        #[base(Len)] #[symbol(m)] unit ma;\n" + "".join(f"        {x}\n" for x in lines) + "    }\n}\nuse sys::dimensions::*;\n")
    return program(parts, PRELUDE + text, HELP)


def rust(f):
    return repr(f) if "." in repr(f) or "inf" in repr(f) else repr(f).replace("e", ".0e")


def make_system(draw, k, nunits):
    """A unit system of literal units: name, exponents, factor, kind (wide: only f64), dimension name."""
    lines = ["quantity_type Quantity;", "dimension_type Dimension;"]
    names = []
    for dim, unit, sym in BASES:
        lines.append(f"#[base({dim})] #[symbol({sym}q)] unit {unit}: {dim};")
        lines.append(f"dimension {dim};")
    lines.append("dimension Dimensionless = 1;")
    dims = {}
    dims[(0, 0, 0, 0)] = "Dimensionless"
    for i, (dim, _, _) in enumerate(BASES):
        e = [0] * 4
        e[i] = 1
        dims[tuple(e)] = dim
    units = []

    def dim_name(e):
        if e not in dims:
            dims[e] = f"Dim{len(dims)}"
            expr = " * ".join(f"{BASES[i][0]}^{x}" for i, x in enumerate(e) if x)
            lines.append(f"dimension {dims[e]} = {expr};")
        return dims[e]

    for i in range(nunits):
        e = tuple(draw.r.choice([-3, -2, -1, 0, 0, 1, 1, 2, 3]) for _ in range(4))
        if i % 7 == 0:
            e = (0, 0, 0, 0)
        kind = draw.r.choice(["narrow", "narrow", "mid", "wide"])
        rng = {"narrow": 6, "mid": 15, "wide": 250}[kind]
        f = draw.r.choice([1, 1, 1, -1]) * draw.r.uniform(1, 10) * 10.0 ** draw.r.randint(-rng, rng)
        if draw.r.random() < 0.2:
            f = float(draw.r.choice([2, 10, 0.5, 1000, 60, 0.001, 3, 1, 1024, 0.1]))
            kind = "narrow"
        what = draw.r.choice(["unit", "unit", "unit", "constant"])
        name = f"u{k}_{i}"
        d = dim_name(e)
        expr = " ".join([rust(abs(f)) if f > 0 else f"-{rust(-f)}"] + [f"* {BASES[j][1]}^{x}" if x >= 0 else f"/ {BASES[j][1]}^{-x}" for j, x in enumerate(e) if x])
        lines.append(f"{what} {name} = {expr};" if draw.r.random() < 0.5 else f"{what} {name}: {d} = {expr};")
        names.append((f"sys::{what}s::{name}", e, f, kind, d))
    # a unit of every composed dimension is needed for value_in with composed units
    pairs = []
    usable = [u for u in names if u[3] != "wide"]
    for i in range(max(4, nunits // 3)):
        a, b = draw.r.choice(usable), draw.r.choice(usable)
        op = draw.r.choice("*/")
        e = tuple(x + y if op == "*" else x - y for x, y in zip(a[1], b[1]))
        f = a[2] * b[2] if op == "*" else a[2] / b[2]
        if not 1e-28 < f < 1e28:
            continue
        pairs.append((f"({a[0]} {op} {b[0]})", e, f, "composed", dim_name(e)))
    draw.r.shuffle(lines)
    text = "mod sys {\n    diman::unit_system! {\n" + "".join(f"        {x}\n" for x in lines) + "    }\n}\nuse sys::dimensions::*;\n"
    return text, names, pairs, [d for e, d in dims.items() if d != "Dimensionless"]


def body_for(draw, u, storages, others, tag):
    expr, e, f, kind, d = u
    b = f"const F: f64 = {rust(f)};\n"
    for S in storages:
        if kind == "wide" and S not in ("f64", "DVec2", "DVec3"):
            continue
        label = "composed" if kind == "composed" else tag
        b += f"{{ let p = up::<{S}>(r, n); bare!(m, p, {S}, \"{label}\", {expr}, F);\n"
        if S in FLOATS:
            other = draw.r.choice(others)
            if kind != "wide":
                b += f"fresh!(m, p, {S}, \"{label}\", {expr}, F);\n"
            b += f"quantity!(m, p, {S}, \"{label}\", {expr}, F, {other});\n"
            b += f"value_in!(m, p, {S}, \"{label}\", {expr}, F, {d});\n"
        b += "}\n"
    return b


def custom(draw, k, nunits):
    text, names, pairs, dims = make_system(draw, k, nunits)
    parts = []
    for u in names + pairs:
        vec = draw.r.sample(list(VECS), 2)
        tag = "constant" if "constants" in u[0] else "unit"
        parts.append(body_for(draw, u, FLOATS + vec, dims, tag))
    return program(parts, PRELUDE + text, HELP)


def si(draw, nunits):
    rows = [(f"diman::si::units::{n}", d, f) for n, d, f in t.names()]
    rows += [(f"diman::si::constants::{n}", d, f) for n, (d, f) in t.CONSTANTS.items()]
    parts = []
    dims = [d for d in t.DIMENSIONS if d != "Dimensionless"]
    picks = draw.r.sample(rows, nunits)
    by = {v: k for k, v in t.DIMENSIONS.items()}
    for n, d, f in picks:
        f = float(f)
        kind = "narrow" if 1e-28 < abs(f) < 1e28 else "wide"
        parts.append(body_for(draw, (n, None, f, kind, d), FLOATS + draw.r.sample(list(VECS), 1), dims, "si"))
    made = 0
    while made < nunits // 2:
        (n1, d1, f1), (n2, d2, f2) = draw.r.sample(rows, 2)
        op = draw.r.choice("*/")
        e = tuple(x + y if op == "*" else x - y for x, y in zip(t.DIMENSIONS[d1], t.DIMENSIONS[d2]))
        f = float(Fraction(f1) * Fraction(f2) if op == "*" else Fraction(f1) / Fraction(f2))
        if e not in by or not 1e-28 < abs(f) < 1e28:
            continue
        made += 1
        parts.append(body_for(draw, (f"({n1} {op} {n2})", e, f, "composed", by[e]), FLOATS + draw.r.sample(list(VECS), 1), dims, "si"))
    return program(parts, PRELUDE + "use diman::si::dimensions::*;\n", HELP.replace("const ULPS: u64 = 4;", "const ULPS: u64 = 14;"))


def run(c):
    c.rule = ("one observation = one application of one unit (literal, constant, SI or composed on the spot) to one value in one form and storage "
              "type, compared with the same value scaled by the factor in double precision; distinct = distinct (form, value)")
    c.assumptions = ["few units in the last place = 4 (14 for SI units, whose factors are themselves chains of definitions)",
                     "f32 forms are checked for factors between 1e-28 and 1e28 with any value, and for factors down to subnormals and up to the "
                     "largest number with powers of two, for which the exact result is representable"]
    jobs = []
    for cfg in ("std", "rat"):
        d = deps(cfg)
        for k in range(c.pick(2, 10)):
            jobs.append((f"{cfg}_c{k}", d, custom(Draw(c, f"{cfg}{k}"), k, c.pick(14, 20))))
        for k in range(c.pick(2, 8)):
            jobs.append((f"{cfg}_s{k}", d, si(Draw(c, f"si{cfg}{k}"), c.pick(14, 24))))
    jobs.append(("std_x0", deps("std"), extremes(Draw(c, "x"), c.pick(24, 80))))
    c.extra["programs"] = len(jobs)

    def one(job):
        name, d, text = job
        src = c.write(f"{name}.rs", text)
        comp = c.compile(src, d)
        return (comp.out, name.split("_")[0]) if comp.ok else None

    for r in pmap(one, jobs):
        if r:
            c.run(r[0], [c.seed, c.pick(20, 150)], label=f"{r[1]}/")
    return 20000
