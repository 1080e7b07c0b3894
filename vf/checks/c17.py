"""C17: the factor a unit ends up with at run time, bit for bit against the number in its definition."""
import math
from decimal import Decimal as D
from decimal import localcontext
from fractions import Fraction as F

from common import deps, pmap
from gen import PRELUDE, Draw, program

MIN, MAX = 2.0**-1022, 1.7976931348623157e308


def rust(x):
    t = repr(x)
    return t if "." in t else t.replace("e", ".0e") if "e" in t else t + ".0"


def any_float(r):
    k = r.random()
    s = r.choice([1, 1, 1, -1])
    if k < 0.1:
        return s * r.choice([1.0, 2.0, 0.5, 10.0, 0.1, 1e-3, 3.0, 1 / 3, MAX, MIN, 5e-324, math.nextafter(MIN, 0), math.nextafter(1.0, 2), math.nextafter(1.0, 0), 2.0**53, 2.0**53 - 1,
                             2.0**63, 2.0**64, 2.0**-1074 * 3, 6.02214076e23, 1.602176634e-19, 9007199254740993.0, 1e22, 1e23, 2.0**-537, 2.0**-538, 2.0**1023])
    if k < 0.2:
        return s * r.getrandbits(52) * 2.0**-1074 or 5e-324
    if k < 0.35:
        return s * 2.0 ** r.randint(-1074, 1023)
    if k < 0.45:
        return s * float(r.randint(1, 10 ** r.randint(1, 22)))
    return s * math.ldexp(1 + r.getrandbits(52) / 2**52, r.randint(-1022, 1023)) if r.random() < 0.6 else s * math.ldexp(1 + r.getrandbits(52) / 2**52, r.randint(-70, 70))


def spelling(r, x):
    """A literal that reads as exactly x."""
    a = abs(x)
    out = [rust(a), f"{a:.16e}", f"{a:.17e}", f"{a:.25e}".replace("e+", "e"), f"{a:.30E}"]
    if a == int(a) and a < 1e30:
        out += [str(int(a)) + ".0", f"{int(a)}.000e0"]
        if a < 2**53:
            t = str(int(a))
            out += [t, "_".join([t[:1], t[1:]]) if len(t) > 1 else t]
    if 1e-40 < a < 1e40:
        with localcontext() as ctx:
            ctx.prec = 400
            t = format(D(a), "f")
            out.append(t if "." in t else t + ".0")
    t = r.choice([o for o in out if float(o.replace("_", "")) == a])
    return ("-" if x < 0 else "") + t


def literal_system(r, count):
    lines = ["quantity_type Quantity;", "dimension_type Dimension;", "#[base(Length)] #[symbol(m)] unit meters;", "dimension Length;", "dimension NoDim = 1;", "dimension Area = Length^2;",
             "dimension Wave = 1 / Length;"]
    items = []
    for i in range(count):
        x = any_float(r)
        t = spelling(r, x)
        kind = r.random()
        sym = f"#[symbol(s{i})] " if r.random() < 0.3 else ""
        ann = lambda d: f": {d}" if r.random() < 0.6 else ""
        if kind < 0.4:
            lines.append(f"{sym}unit u{i}{ann('Length')} = {t} * meters;")
            items.append(("u", i, x, t))
        elif kind < 0.5:
            lines.append(f"{sym}unit u{i}{ann('Length')} = meters * {t};")
            items.append(("u", i, x, t))
        elif kind < 0.65:
            lines.append(f"{sym}unit u{i}{ann('NoDim')} = {t};")
            items.append(("u", i, x, t))
        elif kind < 0.75:
            lines.append(f"{sym}unit u{i}{ann('Wave')} = {t} / meters;")
            items.append(("u", i, x, t))
        elif kind < 0.9:
            lines.append(f"constant C{i}{ann('Length')} = {t} * meters;")
            items.append(("c", i, x, t))
        else:
            lines.append(f"constant C{i}{ann('NoDim')} = {t};")
            items.append(("c", i, x, t))
    body = []
    for k, i, x, t in items:
        w = f"f64::from_bits({hex(float_bits(x))})"
        u = f"sys::units::u{i}" if k == "u" else f"sys::constants::C{i}"
        what = "literal unit" if k == "u" else "literal constant"
        body.append(f'm.form("{what}"); m.same(&{w}, {w}, (1.0f64 * {u}).value_unchecked()); m.same(&({w}, 1u64), {w}, {u}.new(1.0f64).value_unchecked()); '
                    f'm.same(&({w}, 2u64), {w} as f32, (1.0f32 * {u}).value_unchecked()); m.close(&({w}, 3u64), 1.0 / {w}, (1.0f64 / {u}).value_unchecked(), 1);')
    return "\n".join(lines), body


def float_bits(x):
    import struct
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def nearest(v):
    """The double nearest to a fraction (python rounds correctly)."""
    return v.numerator / v.denominator


def in_range(v, lo=1e-290, hi=1e290):
    return F(lo) <= abs(v) <= F(hi)


def derived_system(r, count):
    lines = ["quantity_type Quantity;", "dimension_type Dimension;", "#[base(Length)] #[symbol(m)] unit meters;", "dimension Length;"]
    vals = []
    for i in range(60):
        while True:
            x = any_float(r)
            if x and (i >= 40 or 1e-60 < abs(x) < 1e60):
                break
        lines.append(f"unit a{i} = {spelling(r, x)} * meters;")
        vals.append(F(x))
    # a power of the base unit makes every dimension fit
    items = []
    while len(items) < count:
        k = r.random()
        i, j, l = (r.randrange(60) for _ in range(3))
        a, b, c = vals[i], vals[j], vals[l]
        if k < 0.25:
            v, e, ok, tol = a * b, f"a{i} * a{j}", True, 1
        elif k < 0.45:
            v, e, ok, tol = a / b, f"a{i} / a{j}", True, 2
        elif k < 0.7:
            n = r.choice([-4, -3, -2, -1, 2, 3, 4, 5, 7])
            # every way of computing it stays in range
            ok = all(in_range(a**q) and in_range(1 / a**q) for q in range(1, abs(n) + 1))
            v, e, tol = a**n if ok else F(1), f"a{i}^{n}" if n > 0 else f"a{i}^{n}", 2 * abs(n) + 2
        elif k < 0.8:
            x = any_float(r)
            ok = x != 0 and all(in_range(q) for q in (F(x), a, F(x) / a))
            v, e, tol = F(x) / a, f"{spelling(r, x)} / a{i}", 2
        else:
            ok = all(in_range(q) for q in (a, b, c, a * b, a / c, b / c, a * b / c, b * c, 1 / c))
            v, e, tol = a * b / c, r.choice([f"a{i} * a{j} / a{l}", f"a{i} / a{l} * a{j}", f"(a{i} * a{j}) / a{l}", f"a{i} * (a{j} / a{l})", f"a{i} / (a{l} / a{j})"]), 4
        if not ok or not in_range(v, 5e-322, MAX * 0.999):
            continue
        if abs(v) < F(MIN) * 2 and k > 0.45:
            continue
        try:
            x = nearest(v)
        except OverflowError:
            continue
        n = len(items)
        lines.append(f"unit d{n} = {e};")
        items.append((n, x, tol, e))
    body = [f'm.form("derived factor"); m.close(&(f64::from_bits({hex(float_bits(x))}), {n}u64), f64::from_bits({hex(float_bits(x))}), (1.0f64 * sys::units::d{n}).value_unchecked(), {tol});' for n, x, tol, e in items]
    # the same factors composed at run time
    for _ in range(count // 2):
        i, j = r.randrange(60), r.randrange(60)
        op = r.choice("*/")
        v = vals[i] * vals[j] if op == "*" else vals[i] / vals[j]
        if not in_range(v, 5e-322, MAX * 0.999):
            continue
        body.append(f'm.form("composed unit {op}"); {{ let w = f64::from_bits({hex(float_bits(nearest(v)))}); m.close(&(w, {i * 60 + j}u64), w, (1.0f64 * (sys::units::a{i} {op} sys::units::a{j})).value_unchecked(), 2); }}')
    return "\n".join(lines), body


INTERNAL = PRELUDE + """
use diman::internal::magnitude::Magnitude;
fn main() {
    let mut m = Mon::new();
    let mut r = rng("magnitude");
    let mut v: Vec<f64> = f64::specials().into_iter().filter(|x| x.is_finite()).collect();
    for e in 0..2047u64 { for k in 0..3 { let mant = match k { 0 => 0, 1 => (1u64 << 52) - 1, _ => r.u64() >> 12 }; v.push(f64::from_bits(e << 52 | mant)); v.push(-f64::from_bits(e << 52 | mant)); } }
    for i in 0..52 { v.push(f64::from_bits(1 << i)); v.push(f64::from_bits((1 << i) - 1)); }
    for _ in 0..size() { let x = f64::from_bits(r.u64()); if x.is_finite() { v.push(x); } v.push(f64::moderate(&mut r)); }
    m.form("encoding round trip");
    for &x in &v { m.same(&x, x, Magnitude::from_f64(x).into_f64()); }
    m.form("encoding into f32");
    for &x in &v { m.same(&x, x as f32, Magnitude::from_f64(x).into_f32()); }
    m.form("the encoding of a number equals itself only");
    for (a, b) in pairing(&v, &v, v.len() * 2) { let e = Magnitude::from_f64(a) == Magnitude::from_f64(b); if a != 0.0 || b != 0.0 { m.same(&(a, b), a == b, e); } }
    for (name, f, g) in [("product", (|a, b| a * b) as fn(f64, f64) -> f64, (|a, b| Magnitude::from_f64(a) * Magnitude::from_f64(b)) as fn(f64, f64) -> Magnitude),
        ("quotient", |a, b| a / b, |a, b| Magnitude::from_f64(a) / Magnitude::from_f64(b)), ("product with a number", |a, b| a * b, |a, b| Magnitude::from_f64(a) * b), ("quotient with a number", |a, b| a / b, |a, b| Magnitude::from_f64(a) / b)] {
        m.form(name);
        for (a, b) in pairing(&v, &v, v.len() * 4) { let w = f(a, b); if w.is_finite() { m.close(&(a, b), w, g(a, b).into_f64(), 1); } }
    }
    m.done();
}
"""


def run(c):
    c.rule = ("one observation = the factor one unit or constant has at run time, compared with the number of its definition bit for bit (with the exactly evaluated product, quotient or power up to 1-16 ulp), "
              "or one number through the encoding; distinct = distinct (form, number)")
    c.assumptions = ["decimal literals mean the nearest double; the factor of an f32 quantity is the double rounded to f32; overflow to infinity is left open"]
    jobs = []
    for cfg, n in (("std", c.pick(6, 40)), ("rat", c.pick(4, 40)), ("nostd", c.pick(2, 10)), ("libm", c.pick(2, 10))):
        d = deps(cfg)
        for k in range(n):
            r = Draw(c, f"{cfg}{k}").r
            for kind in ("literal", "derived"):
                lines, body = literal_system(r, 220) if kind == "literal" else derived_system(r, 120)
                text = program(["\n".join(body[i:i + 40]) for i in range(0, len(body), 40)],
                               PRELUDE + "mod sys { use diman::unit_system; unit_system!(\n" + lines + "\n); }\n")
                jobs.append((f"{cfg}_{k}_{kind}", d, text))

    def one(job):
        name, d, text = job
        comp = c.compile(c.write(f"{name}.rs", text), d)
        if comp.ok:
            c.run(comp.out, [c.seed], label=f"{name.split('_')[0]}/")

    pmap(one, jobs)
    # The encoding itself is not public API: if it is not there in this form, the units above have to do.
    d = deps("std")
    comp = c.compile(c.write("magnitude.rs", INTERNAL), d, must=False)
    c.extra["encoding_seen_directly"] = comp.ok
    if comp.ok:
        c.run(comp.out, [c.seed, c.pick(40000, 3000000)], label="encoding/", timeout=600)
    return 4000
