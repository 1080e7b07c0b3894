"""C01: every mistake in a catalogue of dimension mistakes, placed in a function of its own, must draw a compile error in
that function; its corrected twin must compile and run."""
import common
from common import deps, pmap
from gen import DIMENSIONAL, FLOATS, PRELUDE, SI_DIMS, STORAGES, VECS, Draw, scalar

# Placeholders: A, B dimensions, S storage, F its scalar; the good twin has A = B.
MIX = {  # needs the same dimension twice
    "add": "let _ = {ra}x + {rb}y;",
    "sub": "let _ = {ra}x - {rb}y;",
    "add_assign": "let mut x = x; x += {rb}y;",
    "sub_assign": "let mut x = x; x -= {rb}y;",
    "add_assign through &mut": "let mut x = x; let mut p = &mut x; p += {rb}y;",
    "sub_assign through &mut": "let mut x = x; let mut p = &mut x; p -= {rb}y;",
    "eq": "let _ = x == y;",
    "ne": "let _ = {ra}x != {ra}y;",
    "eq ref": "let _ = x == &y;",
    "ref eq": "let _ = &x == y;",
    "assign": "let mut x = x; x = y;",
    "let": "let z: {A}<{S}> = y;",
    "argument": "fn g(_: {A}<{S}>) {{}} g(y);",
    "return": "fn g(y: {B}<{S}>) -> {A}<{S}> {{ y }} let _ = g(y);",
    "field": "struct T {{ f: {A}<{S}> }} let _ = T {{ f: y }};",
    "array": "let _ = [x, y];",
    "vec push": "let mut v = vec![x]; v.push(y);",
    "branch": "let _ = if std::env::args().count() > 1 {{ x }} else {{ y }};",
    "sum": "let z: {A}<{S}> = vec![y, y].into_iter().sum();",
    "sum turbofish": "let z = vec![y, y].iter().copied().sum::<{A}<{S}>>();",
    "fold": "let z = vec![y, y].into_iter().fold(x, |s, t| s + t);",
    "replace": "let mut x = x; let _ = std::mem::replace(&mut x, y);",
    "product result": "let z: diman::Product<{A}<{S}>, {A}<{F}>> = y * {B}::<{F}>::zero();",
    "quotient is dimensionless": "let z: Dimensionless<{F}> = {A}::<{F}>::zero() / {B}::<{F}>::zero();",
    "inverse": "let z: Dimensionless<{F}> = ((1.0 as {F}) / {A}::<{F}>::zero()) * {B}::<{F}>::zero();",
    "chain": "let _ = x * {F2} + {ra}y / {F2};",
    "negated": "let _ = -x + y;",
    "abs": "let _ = x.abs() - y;",
    "generic": "fn g<T: std::ops::Add<T>>(_: T, _: T) {{}} g(x, y);",
    "clone": "let z: {A}<{S}> = y.clone();",
    "default": "let z: {A}<{S}> = <{B}<{S}> as Default>::default();",
    "into quantity": "let z: {A}<{S}> = y.into();",
    "from quantity": "let z = <{A}<{S}> as From<{B}<{S}>>>::from(y);",
    "swap": "let (mut x, mut y) = (x, y); std::mem::swap(&mut x, &mut y);",
    "extend": "let mut v = vec![x]; v.extend(vec![y]);",
    "chained iterators": "let s: {A}<{S}> = [x].into_iter().chain([y]).sum();",
    "reduce": "let s: Option<{A}<{S}>> = [y, y].into_iter().reduce(|s, t| s - t);",
    "contains": "let _ = [x].contains(&y);",
    "boxed": "let z: Box<{A}<{S}>> = Box::new(y);",
    "tuple comparison": "let _ = (x, 1) == (y, 1);",
    "option comparison": "let _ = Some(x) == Some(y);",
    "array comparison": "let _ = [x, x] == [y, y];",
    "closure": "let f = |t: {A}<{S}>| t; let _ = f(y);",
    "option": "let z: Option<{A}<{S}>> = Some(y);",
    "match": "let z = match 1 {{ 1 => x, _ => y }};",
    "mutable reference": "fn g(_: &mut {A}<{S}>) {{}} let mut y = y; g(&mut y);",
    "slice": "fn g(_: &[{A}<{S}>]) {{}} g(&[y, y]);",
    "new": "let z: {A}<{S}> = {B}::<{S}>::new_unchecked({F2} * {n});",
}
MIX_FLOAT = {
    "lt": "let _ = {ra}x < {ra}y;",
    "le": "let _ = x <= y;",
    "gt ref": "let _ = x > &y;",
    "ref ge": "let _ = &x >= y;",
    "partial_cmp": "let _ = x.partial_cmp(&y);",
    "min": "let _ = x.min(y);",
    "max": "let _ = x.max(y);",
    "clamp low": "let _ = x.clamp(y, x);",
    "clamp high": "let _ = x.clamp(x, y);",
    "clamp both": "let _ = x.clamp(y, y);",
    "gen_range": "let _ = rand::Rng::gen_range(&mut rand::thread_rng(), x..y);",
    "gen_range result": "let z: {A}<{S}> = rand::Rng::gen_range(&mut rand::thread_rng(), y..=y);",
    "value_in": "let _ = x.value_in({ub});",
    "value_in composed": "let _ = x.value_in({ub} * units::radian);" ,
    "value_in constant factor": "let _ = (x * {F2}).value_in({ub});",
    "unit times number": "let z: {A}<{S}> = {F2} * {ub};",
    "number times unit": "let z: {A}<{S}> = {ub} * {F2};",
    "number times composed": "let z: {A}<{S}> = {F2} * ({ub} / units::gram * units::gram.new(1.0 as {S}).value_in(units::gram));",
    "unit new": "let z: {A}<{S}> = {ub}.new({F2});",
    "composed new": "let z: {A}<{S}> = ({ub} * units::radian).new({F2});",
    "squared": "let z = x.squared() - y.squared();",
    "cubed": "let z = x.cubed() + y.cubed();",
    "powi": "let z = x.powi::<5>() == y.powi::<5>();",
    "root of square": "let z: {A}<{S}> = y.squared().sqrt();",
    "root of cube": "let z: {A}<{S}> = y.cubed().cbrt();",
    "add unit": "let _ = x + {F2} * {ub};",
    "compare unit": "let _ = x < {F2} * {ub};",
    "uniform": "let _ = rand::distributions::Uniform::new(x, y);",
    "max_by": "let _ = [x, y].into_iter().max_by(|a, b| a.partial_cmp(b).unwrap());",
}
MIX_FLOAT.pop("number times composed")
MIX_VEC = {
    "set_x": "let mut x = x; x.set_x({B}::<{F}>::zero());",
    "set_y": "let mut x = x; x.set_y({B}::<{F}>::zero());",
    "set last": "let mut x = x; x.set_{ax}({B}::<{F}>::zero());",
    "new last": "let _ = {A}::<{S}>::new_{ax}({B}::<{F}>::zero());",
    "last": "let z: {A}<{F}> = y.{ax}();",
    "component for vector": "let z: {A}<{S}> = {A}::<{S}>::new_{ax}(x.{ax}()) + {B}::<{S}>::new_{ax}({B}::<{F}>::zero());",
    "scaled direction": "let z: {A}<{S}> = x.normalize() * y.length();",
    "squares": "let _ = x.dot(x) < y.dot(y);",
    "new_x": "let _ = {A}::<{S}>::new_x({B}::<{F}>::zero());",
    "new_y": "let z: {A}<{S}> = {B}::<{S}>::new_y({B}::<{F}>::zero());",
    "new": "let z = {A}::<{S}>::new({newargs});",
    "x": "let z: {A}<{F}> = y.x();",
    "length": "let z: {A}<{F}> = y.length();",
    "distance": "let _ = x.distance(&y);",
    "distance_squared": "let _ = x.distance_squared(&y);",
    "vec min": "let _ = x.min(y);",
    "vec max": "let _ = x.max(y);",
    "dot": "let z = x.dot(x) + y.dot(y);",
    "dot product dimension": "let z: diman::Product<{A}<{F}>, {A}<{F}>> = x.dot(y);",
    "zero": "let z: {A}<{S}> = {B}::<{S}>::zero();",
    "normalize times": "let z: {A}<{S}> = x.normalize() * {B}::<{F}>::zero();",
    "component sum": "let _ = x.x() + y.y();",
}
BARE = {  # only meaningful when A is dimensionless
    "add number": "let _ = {ra}x + {rb}{n};",
    "number add": "let _ = {ra}{n} + {rb}x;",
    "sub number": "let _ = {ra}x - {rb}{n};",
    "number sub": "let _ = {ra}{n} - {rb}x;",
    "add_assign number": "let mut x = x; x += {rb}{n};",
    "sub_assign number": "let mut x = x; x -= {rb}{n};",
    "add_assign number through &mut": "let mut x = x; let mut p = &mut x; p += {rb}{n};",
    "number add_assign": "let mut t = {n}; t += {rb}x;",
    "number sub_assign": "let mut t = {n}; t -= {rb}x;",
    "number mul_assign": "let mut t = {n}; t *= {rb}x;",
    "number div_assign": "let mut t = {n}; t /= {rb}x;",
    "mul_assign": "let mut z = y; z *= {rb}x;",
    "div_assign": "let mut z = y; z /= {rb}x;",
    "mul_assign through &mut": "let mut z = y; let mut p = &mut z; p *= {rb}x;",
    "div_assign through &mut": "let mut z = y; let mut p = &mut z; p /= {rb}x;",
    "eq number": "let _ = x == {n};",
    "number ne": "let _ = {n} != x;",
    "value": "let _ = x.value();",
    "value_ref": "let _ = x.value_ref();",
    "deref": "let _ = *x;",
    "Deref::deref": "let _ = std::ops::Deref::deref(&x);",
    "deref coercion": "fn g(_: &{S}) {{}} g(&x);",
    "from": "let z: {A}<{S}> = {A}::<{S}>::from({n});",
    "into": "let z: {A}<{S}> = {n}.into();",
    "generic from": "fn g<T: From<{S}>>() {{}} g::<{A}<{S}>>();",
    "generic deref": "fn g<T: std::ops::Deref<Target = {S}>>(_: T) {{}} g(x);",
    "square stays": "let _ = x * x + x;",
    "inverse stays": "let _ = {n} / x + x;",
    "quotient by dimensionless": "let z: Area<{S}> = Area::<{S}>::new_unchecked({n}) / x;",
}
BARE_FLOAT = {
    "lt number": "let _ = x < {n};",
    "number gt": "let _ = {n} > x;",
    "number partial_cmp": "let _ = {n}.partial_cmp(&x);",
    "min number": "let _ = x.min({n});",
    "max number": "let _ = x.max({n});",
    "clamp numbers": "let _ = x.clamp({n}, {n});",
    "deref method": "let _ = x.powf({n});",
    "deref round": "let _ = x.round();",
    "argument number": "fn g<Q: Into<{A}<{S}>>>(_: Q) {{}} g({n});",
}
for _m in ("log2 ln log10 exp exp2 ceil floor sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp_m1 ln_1p").split():
    BARE_FLOAT[_m] = "let _ = x." + _m + "();"
# never meaningful: a bare number for a quantity, or the reverse; the good twin spells out the conversion
PLAIN = {
    "number as quantity": ("let z: {A}<{S}> = {n};", "let z: {A}<{S}> = {A}::<{S}>::new_unchecked({n});"),
    "quantity as number": ("let z: {S} = x;", "let z: {S} = x.value_unchecked();"),
    "quantity as number argument": ("fn g(_: {S}) {{}} g(x);", "fn g(_: {S}) {{}} g(x.value_unchecked());"),
    "into number": ("let z: {S} = x.into();", "let z: {S} = x.value_unchecked();"),
    "cast": ("let _ = x as {S};", "let _ = x.value_unchecked() as {S};"),
    "tuple constructor": ("let z = Q0::<{S}>({n});", "let z = Q0::<{S}>::new_unchecked({n});"),
    "From for number": ("let z = <{S} as From<{A}<{S}>>>::from(x);", "let z = <{S} as From<{S}>>::from(x.value_unchecked());"),
    "generic into number": ("fn g<T: Into<{S}>>(_: T) {{}} g(x);", "fn g<T: Into<{S}>>(_: T) {{}} g(x.value_unchecked());"),
    "TryFrom number": ("let z: Result<{A}<{S}>, _> = {n}.try_into();", "let z: Result<{A}<{S}>, std::convert::Infallible> = {A}::<{S}>::new_unchecked({n}).try_into();"),
    "AsRef": ("let z: &{S} = x.as_ref();", "let z: &{S} = x.value_unchecked_ref();"),
    "AsMut": ("let mut x = x; let z: &mut {S} = x.as_mut();", "let mut v = x.value_unchecked(); let z: &mut {S} = &mut v;"),
    "Borrow": ("let z: &{S} = std::borrow::Borrow::<{S}>::borrow(&x);", "let z: &{S} = std::borrow::Borrow::<{S}>::borrow(x.value_unchecked_ref());"),
    "assignment through deref": ("let mut x = x; *x = {n};", "let mut x = x; x = {A}::<{S}>::new_unchecked({n});"),
    "generic AsRef": ("fn g<T: AsRef<{S}>>(_: T) {{}} g(x);", "fn g<T: std::borrow::Borrow<{S}>>(_: T) {{}} g(x.value_unchecked());"),
    "sum of numbers": ("let z: {A}<{S}> = vec![{n}, {n}].into_iter().sum();", "let z: {A}<{S}> = vec![{n}, {n}].into_iter().map({A}::<{S}>::new_unchecked).sum();"),
    "sum to number": ("let z: {S} = vec![x, x].into_iter().sum();", "let z: {S} = vec![x, x].into_iter().map(|q| q.value_unchecked()).sum();"),
    "iterator product": ("let z: {A}<{S}> = vec![x, x].into_iter().product();", "let z: {A}<{S}> = vec![x, x].into_iter().sum();"),
    "product to number": ("let z: {S} = x * x;", "let z: {S} = (x * x).value_unchecked();"),
    "collected": ("let z: Vec<{S}> = vec![x].into_iter().collect();", "let z: Vec<{S}> = vec![x].into_iter().map(|q| q.value_unchecked()).collect();"),
    "extended": ("let mut z: Vec<{A}<{S}>> = vec![x]; z.extend([{n}]);", "let mut z: Vec<{A}<{S}>> = vec![x]; z.extend([x]);"),
    "assigned number": ("let mut x = x; x = {n};", "let mut x = x; x = {A}::<{S}>::new_unchecked({n});"),
    "returned number": ("fn g() -> {A}<{S}> {{ {n} }}", "fn g() -> {A}<{S}> {{ {A}::<{S}>::new_unchecked({n}) }}"),
    "option number": ("let z = Some(x).unwrap_or({n});", "let z = Some(x).unwrap_or(x);"),
    "stored field": ("let z = x.0;", "let z = x.value_unchecked();"),
}
PLAIN_FLOAT = {
    "value_in number": ("let _ = x.value_in({n});", "let _ = Length::<{S}>::zero().value_in(units::meter);"),
    "value_in quantity": ("let _ = x.value_in(x);", "let _ = Length::<{S}>::zero().value_in(units::meter);"),
    "gen_range numbers": ("let z: {A}<{S}> = rand::Rng::gen_range(&mut rand::thread_rng(), {n}..{n});", "let z: {A}<{S}> = rand::Rng::gen_range(&mut rand::thread_rng(), x..x);"),
    "gen_range to number": ("let z: {S} = rand::Rng::gen_range(&mut rand::thread_rng(), x..x);", "let z: {S} = rand::Rng::gen_range(&mut rand::thread_rng(), {n}..{n});"),
    "unit as quantity": ("let z: Length<{S}> = units::meter;", "let z: Length<{S}> = {n} * units::meter;"),
    "add unit to quantity": ("let _ = Length::<{S}>::zero() + units::meter;", "let _ = Length::<{S}>::zero() + {n} * units::meter;"),
    "compare with unit": ("let _ = Length::<{S}>::zero() < units::meter;", "let _ = Length::<{S}>::zero() < {n} * units::meter;"),
    "units added": ("let _ = units::meter + units::second;", "let _ = units::meter * units::second;"),
    "parsed": ("let z: {A}<{S}> = \"1.0\".parse().unwrap();", "let z: {S} = \"1.0\".parse().unwrap();"),
    "uniform numbers": ("let z = rand::distributions::Uniform::<{A}<{S}>>::new({n}, {n});", "let z = rand::distributions::Uniform::<{A}<{S}>>::new(x, x);"),
    "powf": ("let z = x.powf({n});", "let z = x.powi::<1>();"),
    "recip": ("let z = x.recip();", "let z = {n} / x;"),
    "mul_add": ("let z = x.mul_add(x, x);", "let z = x * {n} + x;"),
    "hypot": ("let z = x.hypot(x);", "let z = (x.squared() + x.squared());"),
    "atan2": ("let z = x.atan2({n});", "let z = (x / x).atan();"),
    "to_degrees": ("let z = x.to_degrees();", "let z = (x / x).to_degrees();"),
}
PLAIN_VEC = {
    "set_x number": ("let mut x = x; x.set_x({one});", "let mut x = x; x.set_x({A}::<{F}>::new_unchecked({one}));"),
    "new_y number": ("let z = {A}::<{S}>::new_y({one});", "let z = {A}::<{S}>::new_y({A}::<{F}>::new_unchecked({one}));"),
    "component": ("let z: {F} = x.x();", "let z: {F} = x.x().value_unchecked();"),
    "component field": ("let z = x.x + x.x;", "let z = x.x() + x.x();"),
    "indexed": ("let z = x[0];", "let z = x.x();"),
    "length as number": ("let z: {F} = x.length();", "let z: {F} = x.length().value_unchecked();"),
    "dot with bare": ("let z: {F} = x.dot({n});", "let z: {F} = x.dot(x).value_unchecked();"),
    "distance from bare": ("let z = x.distance({n});", "let z = x.distance(&x);"),
    "vector for scalar": ("let z: {A}<{F}> = x;", "let z: {A}<{F}> = x.length();"),
    "scalar for vector": ("let z: {A}<{S}> = x.length();", "let z: {A}<{S}> = x;"),
    "add scalar of another dimension": ("let z = x + (x.dot(x) * x.dot(x) * x.length());", "let z = x + x;"),
    "to_array": ("let z = x.to_array();", "let z = x.value_unchecked().to_array();"),
}
ONE = {"f32": "1.0f32", "f64": "1.0f64", "Vec2": "Vec2::ONE", "Vec3": "Vec3::ONE", "DVec2": "DVec2::ONE", "DVec3": "DVec3::ONE"}
UNITS = {"Dimensionless": "units::radian", "Length": "units::meter", "Time": "units::hour", "Mass": "units::gram", "Temperature": "units::kelvin",
         "Current": "units::ampere", "AmountOfSubstance": "units::mole", "LuminousIntensity": "units::candela",
         "Area": "units::square_meter", "Volume": "units::litre", "Frequency": "units::hertz", "Velocity": "units::meter_per_second",
         "Force": "units::newton", "Energy": "units::joule", "Power": "units::watt", "Pressure": "units::pascal",
         "ElectricCharge": "units::coulomb", "Voltage": "units::volt", "SpecificEnergy": "units::gray"}


def cases(c, draw, vectors):
    """(name, function body for the mistake, for the twin)."""
    out = []
    reps = c.pick(3, 14)
    storages = STORAGES if vectors else FLOATS
    r = draw.r

    def near(a):
        """A dimension that differs from a, preferably in one base dimension only."""
        close = [d for d in SI_DIMS if d != a and SI_DIMS[d] != SI_DIMS[a] and sum(x != y for x, y in zip(SI_DIMS[d], SI_DIMS[a])) == 1]
        far = [d for d in SI_DIMS if SI_DIMS[d] != SI_DIMS[a]]
        return r.choice(close) if close and r.random() < 0.6 else r.choice(far)

    def fill(t, S, A, B):
        n = 3 if S[-1] == "3" else 2
        zs = [f"{A}::<{scalar(S)}>::zero()"] * n
        zs[r.randrange(n)] = f"{B}::<{scalar(S)}>::zero()"
        return t.format(A=A, B=B, S=S, F=scalar(S), F2="2.0" + scalar(S), ra=r.choice(["", "&"]), rb=r.choice(["", "&"]),
                        ub=UNITS.get(B, "units::radian"), n=ONE[S], one="1.0" + scalar(S), newargs=", ".join(zs), ax="z" if S[-1] == "3" else "y")

    def fn(S, A, B, body):
        return f"(x: {A}<{S}>, y: {B}<{S}>) {{ {body} }}"

    def mix(name, t, S):
        pool = list(UNITS) if "{ub}" in t else list(SI_DIMS)
        A = r.choice(pool)
        for _ in range(50):
            B = near(A)
            if B in pool:
                break
        else:
            B = "Length" if A != "Length" else "Time"
        state = r.getstate()
        bad = fn(S, A, B, fill(t, S, A, B))
        r.setstate(state)
        good = fn(S, A, A, fill(t, S, A, A))
        out.append((f"{name} {S} {A}/{B}", bad, good))

    for S in storages:
        ts = dict(MIX)
        ts.update(MIX_FLOAT if S in FLOATS else MIX_VEC)
        if not vectors:
            ts = {k: v for k, v in ts.items() if "rand::" not in ts[k]}
        for name, t in ts.items():
            for _ in range(reps):
                mix(name, t, S)
        bs = dict(BARE)
        if S in FLOATS:
            bs.update(BARE_FLOAT)
        for name, t in bs.items():
            for _ in range(reps if name not in BARE_FLOAT or c.thorough else 2):
                A = r.choice(DIMENSIONAL)
                Y = r.choice(list(SI_DIMS))
                state = r.getstate()
                bad = fill(t, S, A, A)
                r.setstate(state)
                good = fill(t, S, "Dimensionless", "Dimensionless")
                out.append((f"{name} {S} {A}", fn(S, A, Y, bad), fn(S, "Dimensionless", Y, good)))
        plain = dict(PLAIN)
        plain.update(PLAIN_FLOAT if S in FLOATS else PLAIN_VEC)
        for name, (b, g) in plain.items():
            if not vectors and "rand::" in b:
                continue
            A = r.choice(DIMENSIONAL)
            out.append((f"{name} {S} {A}", fn(S, A, A, fill(b, S, A, A)), fn(S, A, A, fill(g, S, A, A))))
    return out


HEAD = PRELUDE + """use diman::si::dimensions::*;
use diman::si::units;
use diman::si::dimensions::Length as Q0;
mod other { diman::unit_system!(quantity_type Quantity; dimension_type Dimension; dimension Length; #[base(Length)] #[symbol(m)] unit meters;); }
"""


def check_mixed(c, d, label, items, idx):
    """Bad functions in one file, their twins in another."""
    lines = HEAD.count("\n")
    bad, good, spans = [HEAD], [HEAD], []
    for i, (name, b, g) in enumerate(items):
        bad.append(f"fn f{i}{b}\n")
        good.append(f"fn f{i}{g}\n")
        spans.append((name, lines + 1 + i))
    bad.append("fn main() {}\n")
    good.append("fn main() {}\n")
    bs = c.write(f"{label}_bad_{idx}.rs", "".join(bad))
    gs = c.write(f"{label}_good_{idx}.rs", "".join(good))
    rb = c.compile(bs, d, must=False, emit="metadata")
    # type errors can hide behind others only across phases: everything here is found by the type checker
    hit = set()
    for e in rb.errors:
        hit.update(e.primary or e.lines)
    missed = [(n, l) for n, l in spans if l not in hit]
    return rb, missed, spans, bs, gs


def run(c):
    c.rule = ("one observation = one function containing one dimension mistake, for which the compiler must report an error inside that "
              "function, or its corrected twin, which must compile; mistakes are drawn from a catalogue of forms with random storage types, "
              "dimensions (mostly differing in a single base dimension) and operand references; distinct = distinct function text")
    c.assumptions = ["rustc's diagnostics carry the line of the offending code"]
    jobs = []
    cfgs = [("std", True), ("rat", True), ("min", False)]
    ds = {n: deps(n) for n, _ in cfgs}
    for cfg, vectors in cfgs:
        cs = cases(c, Draw(c, cfg), vectors)
        for i in range(0, len(cs), 350):
            jobs.append((cfg, cs[i:i + 350], i // 350))

    def one(job):
        cfg, items, idx = job
        d = ds[cfg]
        rb, missed, spans, bs, gs = check_mixed(c, d, cfg, items, idx)
        # a mistake not reported in the crowd is compiled on its own before anything is concluded
        lone = []
        for name, line in missed:
            i = line - spans[0][1]
            src = c.write(f"{cfg}_lone_{idx}_{i}.rs", HEAD + f"fn f{items[i][1]}\nfn main() {{}}\n")
            if len(lone) < 12 and c.compile(src, d, must=False, emit="link").ok:
                lone.append((name, items[i][1], src))
        rg = c.compile(gs, d, must=False, emit="link")
        return cfg, items, lone, rg, gs

    for cfg, items, lone, rg, gs in pmap(one, jobs):
        for name, b, g in items:
            c.event(f"rejected: {name.split(' ')[0]}", (cfg, name, b))
            c.event(f"accepted: {name.split(' ')[0]}", (cfg, name, g))
        for name, body, src in lone:
            c.violate(f"a dimension mistake compiles: {name}", {"config": cfg, "function": "fn f" + body}, [src])
        if not rg.ok:
            c.violate("a program with consistent dimensions is rejected", {"config": cfg, "errors": [e.rendered[:1200] for e in rg.errors[:4]]}, [gs])
        c.sample(f"[{cfg}] rejected fn f{items[0][1]}")
    roots(c, ds)
    systems(c, ds)
    return 1000


def roots(c, ds):
    """Roots of dimensions that are not a square or a cube: refused without rational dimensions, exact with them."""
    r = Draw(c, "roots").r
    bad, good = [], []
    for fn, k in (("sqrt", 2), ("cbrt", 3)):
        odd = [d for d, e in SI_DIMS.items() if any(x % k for x in e)]
        even = [d for d, e in SI_DIMS.items() if not any(x % k for x in e)]
        for S in FLOATS:
            for d in (odd if c.thorough else r.sample(odd, 7)):
                bad.append((fn, S, d))
            good += [(fn, S, d) for d in even]
    src = lambda items: HEAD + "fn main() {\n" + "".join(f"let z = {d}::<{S}>::new_unchecked(4.0).{fn}(); assert!(!z.is_nan());\n" for fn, S, d in items) + "}\n"

    def lone(item):
        fn, S, d = item
        p = c.write(f"root_{fn}_{S}_{d}.rs", src([item]))
        return item, c.compile(p, ds["min"], must=False, emit="link"), p

    for item, comp, p in pmap(lone, bad):
        c.event(f"rejected: {item[0]}", item)
        if comp.ok:
            c.violate(f"an inexact root compiles: {item}", {"program": open(p).read()}, [p])
        # the same program with rational dimensions is consistent
    own_roots(c, ds, r)
    for cfg, items in (("std", good), ("min", good), ("rat", good + bad)):
        p = c.write(f"roots_{cfg}.rs", src(items))
        if c.compile(p, ds[cfg]).ok:
            c.event("accepted: roots", (cfg, len(items)), n=len(items))


def own_roots(c, ds, r):
    """The same for every kind of exponent, of either sign, alone and among even or divisible ones."""
    vectors = []
    for k, exps in ((2, [1, -1, 3, -3, 5, -7, 9]), (3, [1, -1, 2, -2, 4, -4, 5, -5, 7, -8, 10])):
        for e in exps:
            vectors.append((k, [e, 0, 0]))
            v = [e] + [k * r.choice([-2, -1, 0, 1, 2]) for _ in range(2)]
            r.shuffle(v)
            vectors.append((k, v))
        vectors += [(k, [1, -1, 0]), (k, [-1, -1, 1]), (k, [1, 1, 1] if k == 2 else [1, 1, -2]), (k, [k, -1, 1 - k])]
        vectors += [(k, [r.choice([x for x in range(-9, 10)]) for _ in range(3)]) for _ in range(c.pick(4, 40))]
        # and ones that have a root
        vectors += [(k, [k * r.randint(-4, 4) for _ in range(3)]) for _ in range(c.pick(4, 20))]

    def program(k, e, S):
        expr = "1" + "".join(f" * {n}^{x}" for n, x in zip("ABC", e))
        return (PRELUDE + "mod own { diman::unit_system!(quantity_type Quantity; dimension_type Dimension; dimension A; dimension B; dimension C;\n"
                f"#[base(A)] #[symbol(a)] unit a; #[base(B)] #[symbol(b)] unit b; #[base(C)] #[symbol(c)] unit c;\n    dimension Squared = {expr};\n"
                + (f"dimension Root = {'1' + ''.join(f' * {n}^{x // k}' for n, x in zip('ABC', e))};\n" if not any(x % k for x in e) else "") + "); }\n"
                f"fn main() {{ let z{': own::dimensions::Root<' + S + '>' if not any(x % k for x in e) else ''} = own::dimensions::Squared::<{S}>::new_unchecked(64.0).{ {2: 'sqrt', 3: 'cbrt'}[k]}(); "
                f"assert!((z.value_unchecked() - {64 ** (1 / k):.1f}).abs() < 1e-3); }}\n")

    def lone(job):
        n, (k, e) = job
        S = FLOATS[n % 2]
        p = c.write(f"own_root_{n}.rs", program(k, e, S))
        comp = c.compile(p, ds["min"], must=False, emit="link")
        rat = c.compile(p, ds["rat"], must=False, emit="link")
        return k, e, S, comp, rat, p

    for k, e, S, comp, rat, p in pmap(lone, list(enumerate(vectors))):
        exact = not any(x % k for x in e)
        c.event(f"{'accepted' if exact else 'rejected'}: root of an own dimension", (k, tuple(e), S))
        if comp.ok != exact:
            c.violate("an inexact root compiles" if comp.ok else "an exact root is rejected", {"root": k, "exponents": e, "errors": [x.rendered[:600] for x in comp.errors[:2]]}, [p])
        if not rat.ok:
            c.violate("a root is rejected with rational dimensions", {"root": k, "exponents": e, "errors": [x.rendered[:600] for x in rat.errors[:2]]}, [p])
        for ok, out in ((comp.ok, comp.out), (rat.ok, rat.out)):
            if ok:
                c.run(out, [])


def systems(c, ds):
    """Quantities of two unit systems never mix."""
    items = [("add", "a + b"), ("sub", "a - b"), ("eq", "a == b"), ("lt", "a < b"), ("mul", "a * b"), ("div", "a / b"), ("value_in", "a.value_in(other::units::meters)"),
             ("unit", "a * other::units::meters"), ("composed", "units::meter * other::units::meters"), ("min", "a.min(b)"), ("let", "{ let z: Length<f64> = b; }")]
    fns = "".join(f"fn g{i}(a: Length<f64>, b: other::dimensions::Length<f64>) {{ let _ = {e}; }}\n" for i, (n, e) in enumerate(items))
    p = c.write("systems.rs", HEAD + fns + "fn main() {}\n")
    comp = c.compile(p, ds["min"], must=False, emit="metadata")
    hit = set()
    for e in comp.errors:
        hit.update(e.primary or e.lines)
    base = HEAD.count("\n") + 1
    for i, (n, e) in enumerate(items):
        c.event("rejected: across systems", n)
        if base + i not in hit:
            c.violate(f"quantities of different unit systems mix: {n}", {"expression": e}, [p])
