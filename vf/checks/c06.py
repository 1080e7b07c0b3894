"""C06: the whole si module against an independently written table (SI brochure, CODATA, IAU)."""
import si_table as t
from common import deps, pmap
from gen import SI

BASES = ["Length", "Time", "Mass", "Temperature", "Current", "AmountOfSubstance", "LuminousIntensity"]

HELP = """use std::any::TypeId;
fn ty<T: 'static>(_: &T) -> TypeId { TypeId::of::<T>() }
"""


def product(dims, S="f64"):
    e = f"Dimensionless::<{S}>::new_unchecked(1.0)"
    for b, k in zip(BASES, dims):
        one = f"{b}::<{S}>::new_unchecked(1.0)"
        e += (f" * {one}" if k > 0 else f" / {one}") * abs(k)
    return e


def lit(f):
    return repr(float(f)) if float(f) != int(float(f)) or abs(float(f)) > 1e15 else f"{float(f):.1f}"


def source(serde, dims_of):
    parts = []
    # dimensions
    b = "use diman::si::dimensions::*;\n"
    for i, (name, d) in enumerate(t.DIMENSIONS.items()):
        b += f'''{{ m.form("dimension"); let p = {product(d)}; let want = ty(&p); let got = TypeId::of::<{name}<f64>>(); m.event(want == got, {i}, || format!("{name} should be {product(d).replace("::<f64>::new_unchecked(1.0)", "")}, is {{}}", std::any::type_name::<{name}<f64>>())); }}\n'''
    b += "let base = [" + ", ".join(f"TypeId::of::<{n}<f64>>()" for n in BASES + ["Dimensionless"]) + "];\n"
    b += 'm.form("base dimensions differ"); for i in 0..8 { for j in 0..i { m.event(base[i] != base[j], (i * 10 + j) as u64, || format!("{i} {j}")); } }\n'
    parts.append(b)
    # units and constants
    rows = [("units", *x) for x in t.names()] + [("constants", n, d, f) for n, (d, f) in t.CONSTANTS.items()]
    for k in range(0, len(rows), 150):
        b = ""
        for i, (mod, name, dim, f) in enumerate(rows[k:k + 150]):
            u = f"diman::si::{mod}::{name}"
            b += f'one(m, "{name}", {{ let q: {dim}<f64> = {u}.new(1.0f64); q.value_unchecked() }}, {{ let q: {dim}<f64> = 1.0f64 * {u}; q.value_unchecked() }}, {{ let q: {dim}<f32> = 1.0f32 * {u}; q.value_unchecked() }}, {dim}::<f64>::new_unchecked({lit(f)}).value_in({u}), {lit(f)}, ty(&{u}.new(1.0f64)) == TypeId::of::<{dim}<f64>>());\n'
        parts.append(b)
    helpers = HELP + """
fn one(m: &mut Mon, name: &'static str, new: f64, times: f64, single: f32, back: f64, want: f64, dim: bool) {
    m.form("factor by .new"); m.close(&name, want, new, 12);
    m.form("factor by *"); m.close(&name, want, times, 12);
    m.form("factor by * in f32"); m.close(&name, want as f32, single, 2);
    m.form("factor by value_in"); m.close(&name, 1.0, back, 12);
    m.form("dimension of unit"); m.same(&name, true, dim);
}
"""
    if serde:
        syms = t.symbols()
        b = ""
        by = {}
        for s, dim, f in syms:
            by.setdefault(t.DIMENSIONS[dim], []).append((s, dim, f))
        helpers += """
fn sym<T: serde::de::DeserializeOwned>(m: &mut Mon, s: &'static str, value: impl Fn(T) -> f64, want: f64) {
    for text in [format!("1 {s}"), format!("1 {s}^1")] {
        m.form("symbol");
        let got = attempt(|| serde_json::from_str::<T>(&format!("\\"{text}\\"")).map(|q| value(q)).map_err(|e| e.to_string()).unwrap());
        m.close(&s, Ok(want), got, 16);
    }
}
fn nosym<T: serde::de::DeserializeOwned>(m: &mut Mon, s: &'static str) {
    m.form("symbol of another dimension");
    let got = attempt(|| serde_json::from_str::<T>(&format!("\\"1 {s}\\"")).is_err());
    m.same(&s, Ok(true), got);
}
"""
        for dims, group in by.items():
            other = "Length" if dims != t.DIMENSIONS["Length"] else "Time"
            b = ""
            for s, dim, f in group:
                b += f'sym::<{dim}<f64>>(m, "{s}", |q| q.value_unchecked(), {lit(f)});\n'
                b += f'nosym::<{other}<f64>>(m, "{s}");\n'
            parts.append(b)
    from gen import program
    return program(parts, SI, helpers)


def run(c):
    c.rule = ("one observation = one fact about one name of the si module (dimension of an alias, factor of a unit by .new, *, value_in, in "
              "f64 and f32, dimension of a unit, quantity denoted by a symbol), compared with a hand-written table; the table is enumerated "
              "completely; distinct = distinct (kind of fact, name)")
    c.assumptions = ["vf/si_table.py states the SI correctly", "a factor may be off by 12 ulp through its chain of definitions"]
    c.extra["exhaustive"] = True
    c.extra["names_in_table"] = len(t.names())
    c.extra["symbols_in_table"] = len(t.symbols())
    c.extra["dimensions_in_table"] = len(t.DIMENSIONS)
    cfgs = c.pick([("std", True), ("rat", True)], [("std", True), ("rat", True), ("min", False)])
    jobs = [(cfg, serde, deps(cfg)) for cfg, serde in cfgs]

    def one(job):
        cfg, serde, d = job
        src = c.write(f"{cfg}.rs", source(serde, None))
        comp = c.compile(src, d)
        return (comp.out, f"{cfg}/") if comp.ok else None

    for r in pmap(one, jobs):
        if r:
            c.run(r[0], [c.seed], label=r[1])
    return 5000
