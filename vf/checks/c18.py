"""C18: rational dimension exponents: one type per fraction, however it is written or reached; printed in lowest terms."""
import random
from fractions import Fraction as F

import algebra
from common import deps, pmap
from gen import PRELUDE, Draw

FRACTIONS = [(1, 2), (-1, 2), (1, 3), (2, 3), (-3, 2), (5, 6), (7, 4), (-5, 9), (3, 7), (11, 12), (1, 1), (2, 1), (-1, 1), (3, 1), (-4, 1), (0, 1), (1, 97), (1000, 97), (-997, 101), (13, 1024), (6561, 2048)]


def notation(r, e, simple=False):
    """One of the ways to write the exponent e."""
    if e.denominator == 1 and r.random() < 0.4:
        return str(e.numerator)
    k = 1 if simple else r.choice([1, 1, 2, 3, 4, 5, 6, 10, 12, 35, 128])
    if r.random() < 0.45:
        k = -k
    sp = r.choice(["", "", " "])
    return f"({sp}{e.numerator * k}{sp}/{sp}{e.denominator * k}{sp})"


def power(r, name, e):
    if e == 1 and r.random() < 0.6:
        return name
    return f"{name}{r.choice(['', ' '])}^{r.choice(['', ' '])}{notation(r, e)}"


def spread(r, dims):
    """The same product with every exponent cut into several summands, in any order, some of them as divisors."""
    parts = []
    for n, e in dims.items():
        left = e
        for _ in range(r.choice([0, 0, 1, 2])):
            cut = F(r.randint(-6, 6), r.choice([1, 2, 3, 4, 5, 6, 8]))
            parts.append((n, cut))
            left -= cut
        parts.append((n, left))
    if r.random() < 0.3:
        n = r.choice(list(dims) or ["B0"])
        e = F(r.randint(1, 9), r.randint(1, 9))
        parts += [(n, e), (n, -e)]
    r.shuffle(parts)
    return parts


def text(r, parts):
    out = ""
    for i, (n, e) in enumerate(parts):
        if i == 0:
            if r.random() < 0.25:
                out = "1 / " + power(r, n, -e)
            else:
                out = power(r, n, e)
        elif r.random() < 0.5:
            out += " / " + power(r, n, -e)
        else:
            out += " * " + power(r, n, e)
    return out or "1"


def system(draw, ndims):
    """Dimensions and units written in many ways; a few vectors of exponents are reached over and over."""
    r = draw.r
    nb = r.choice([1, 2, 2, 3, 5])
    bases = [f"B{i}" for i in range(nb)]
    lines = ["quantity_type Quantity;", "dimension_type Dimension;"]
    for i, b in enumerate(bases):
        lines += [f"dimension {b};", f"#[base({b})] #[symbol(s{'abcde'[i]})] unit u{i};"]
    env = {b: {b: F(1)} for b in bases}
    goals = []
    for _ in range(max(3, ndims // 4)):
        goals.append({b: F(*r.choice(FRACTIONS)) for b in r.sample(bases, r.randint(1, nb))})
    goals.append({})
    units = {f"u{i}": dict(env[b]) for i, b in enumerate(bases)}
    defs, udefs, checks = [], [], []

    def clean(d):
        return {k: v for k, v in d.items() if v}

    def define(env, of_base, name, out, kw):
        want = clean(r.choice(goals))
        # through another dimension (or unit), raised to a power, and completed
        via = [n for n in env if env[n]]
        rest, parts = dict(want), []
        for _ in range(r.choice([0, 1, 1, 2])):
            v = r.choice(via)
            p = F(*r.choice(FRACTIONS[:16]))
            if any(abs((x * p).numerator) > 400000 or (x * p).denominator > 20000 for x in env[v].values()):
                continue
            parts.append((v, p))
            for k, x in env[v].items():
                rest[k] = rest.get(k, F(0)) - x * p
        more = spread(r, {of_base[k]: x for k, x in rest.items() if x} or {of_base[bases[0]]: F(0)})
        allp = parts + more
        r.shuffle(allp)
        # the partial sums must stay in range as well: denominators multiply before they are reduced
        if sum(len(str(e.denominator)) + len(str(abs(e.numerator))) for _, e in allp) > 60:
            return False
        env[name] = want
        t = text(r, allp)
        out.append((f"{kw} {name} = {t};", t))
        return True

    k = 0
    while len(defs) < ndims:
        if define(env, {b: b for b in bases}, f"D{k}", defs, "dimension"):
            k += 1
    k = 0
    while len(udefs) < ndims // 2:
        if define(units, {b: f"u{i}" for i, b in enumerate(bases)}, f"w{k}", udefs, "unit"):
            k += 1
    # annotations are compared with the definition when the system is expanded
    for j, (t, _) in enumerate(udefs):
        same = [n for n in env if clean(env[n]) == clean(units[f"w{j}"])]
        if same and r.random() < 0.5:
            udefs[j] = (t.replace(f"unit w{j} =", f"unit w{j}: {r.choice(same)} ="), t)
    order = [d for d, _ in defs + udefs]
    r.shuffle(order)
    body = "\n    ".join(lines + order)
    mod = f"mod sys {{\ndiman::unit_system!(\n    {body}\n);\n}}\n"
    key = lambda d: " ".join(f"{b}^{v}" for b, v in sorted(clean(d).items()))
    names = list(env)
    ids = ", ".join(f'(TypeId::of::<sys::dimensions::{n}<f64>>(), "{key(env[n])}", "{n}")' for n in names)
    uids = ", ".join(f'(ty(&sys::units::{n}.new(1.0f64)), "{key(units[n])}", "{n}")' for n in units)
    sh = lambda b: "s" + "abcde"[int(b[1:])]
    prints = ""
    for n in names:
        want = sorted(sh(b) + ("" if v == 1 else f"^{v}") for b, v in clean(env[n]).items())
        prints += f'text(m, "{n}", format!("{{:?}}", sys::dimensions::{n}::<f64>::new_unchecked(1.5)), &[{", ".join(chr(34) + w + chr(34) for w in want)}]);\n'
    return mod, f"""#[inline(never)] fn matrix(m: &mut Mon) {{
let ids = [{ids}, {uids}];
for i in 0..ids.len() {{ for j in 0..i {{
    let want = ids[i].1 == ids[j].1;
    m.form(if want {{ "equal fractions" }} else {{ "different fractions" }});
    m.event((ids[i].0 == ids[j].0) == want, (i * 1000 + j) as u64 + key(ids[i].1) ^ key(ids[j].1), || format!("{{}} = {{}} and {{}} = {{}}", ids[i].2, ids[i].1, ids[j].2, ids[j].1));
}} }}
{prints}}}
""", len(names) + len(units)


HELP = """use std::any::TypeId;
fn ty<T: 'static>(_: &T) -> TypeId { TypeId::of::<T>() }
fn key(s: &str) -> u64 { s.bytes().fold(7, |h, b| mix(h, b as u64)) }
fn text(m: &mut Mon, name: &str, got: String, want: &[&str]) {
    m.form("printed in lowest terms");
    let mut t: Vec<&str> = got.split_whitespace().collect();
    let number = if t.is_empty() { "" } else { t.remove(0) };
    t.sort();
    let mut w = want.to_vec();
    w.sort();
    m.event(number == "1.5" && t == w, key(&got) ^ key(name), || format!("{} is printed {:?}, expected the factors {:?}", name, got, w));
}
"""

# Values of a dimension reached by chains of roots and powers, printed; and used as one type with the dimension written out
CHAIN = """
mod sys {{
diman::unit_system!(
    quantity_type Quantity;
    dimension_type Dimension;
    dimension A; dimension B;
    #[base(A)] #[symbol(sa)] unit ua;
    #[base(B)] #[symbol(sb)] unit ub;
    {dims}
);
}}
fn want<T>(x: T) -> T {{ x }}
"""


def chains(draw, n):
    r = draw.r
    dims, body = [], ""
    for i in range(n):
        e, x = {"A": F(1), "B": F(0)}, "sys::units::ua.new(1.5f64)"
        for _ in range(r.randint(2, 9)):
            k = r.choice(["sqrt", "cbrt", "powi", "mul", "div", "inv", "unit"])
            f = dict(e)
            if k == "sqrt":
                f, y = {b: v / 2 for b, v in f.items()}, f"{x}.sqrt()"
            elif k == "cbrt":
                f, y = {b: v / 3 for b, v in f.items()}, f"{x}.cbrt()"
            elif k == "powi":
                p = r.choice([-3, -2, -1, 2, 3, 4, 5, 7])
                f, y = {b: v * p for b, v in f.items()}, f"{x}.powi::<{{{p}}}>()"
            elif k == "inv":
                f, y = {b: -v for b, v in f.items()}, f"(1.0f64 / {x})"
            elif k == "unit":
                f["B"] += 1
                y = f"({x} * sys::units::ub)"
            else:
                g, z = r.choice([({"A": F(1, 2)}, "sys::units::ua.new(1.5f64).sqrt()"), ({"B": F(1, 3)}, "sys::units::ub.new(1.5f64).cbrt()"), ({"A": F(2)}, "sys::units::ua.new(1.5f64).squared()"),
                                 ({"A": F(-1, 6)}, "(1.0f64 / sys::units::ua.new(1.5f64).sqrt().cbrt())")])
                for b, v in g.items():
                    f[b] += v if k == "mul" else -v
                y = f"({x} {'*' if k == 'mul' else '/'} {z})"
            if all(v.denominator <= 20000 and abs(v.numerator) < 20000 for v in f.values()):
                e, x = f, y
        d = {b: v for b, v in e.items() if v}
        dims.append(f"dimension R{i} = {text(r, spread(r, d)) if d else '1'};")
        w = sorted("s" + b.lower() + ("" if v == 1 else f"^{v}") for b, v in d.items())
        body += f"""{{ let q = {x}; m.form("reached by operations"); m.event(ty(&q) == TypeId::of::<sys::dimensions::R{i}<f64>>(), {i}, || "R{i}".to_string());
let v = q.clone().value_unchecked(); let t = format!("{{:?}}", q); let head = format!("{{}}", v); text(m, "R{i}", format!("1.5{{}}", t.strip_prefix(head.as_str()).unwrap_or(" no number")), &[{", ".join(chr(34) + s + chr(34) for s in w)}]); }}
"""
    return PRELUDE + HELP + CHAIN.format(dims="\n    ".join(dims)) + f"#[inline(never)] fn matrix(m: &mut Mon) {{\n{body}}}\n"


# The fraction type itself, where it can be reached
RATIO = PRELUDE + """
use diman::internal::ratio::Ratio;
fn g(a: i128, b: i128) -> i128 { if b == 0 { a.abs() } else { g(b, a % b) } }
fn red(n: i128, d: i128) -> (i128, i128) { let k = g(n, d) * if d < 0 { -1 } else { 1 }; (n / k, d / k) }
fn val(x: Ratio) -> (i128, i128) { (x.num() as i128, x.denom() as i128) }
fn txt(p: (i128, i128)) -> String { if p.1 == 1 { p.0.to_string() } else { format!("{}/{}", p.0, p.1) } }
fn main() {
    let mut m = Mon::new();
    let mut r = rng("ratio");
    for i in 0..size() {
        let big = 1u64 << (1 + r.below(30));
        let mut any = || { let s = r.below(2) as i64 * 2 - 1; s * r.below(big) as i64 };
        let (a, b, c, d) = (any(), any(), any(), any());
        let (b, d) = (if b == 0 { -1 } else { b }, if d == 0 { 3 } else { d });
        let key = (a, b, c, d);
        let k = mix(mix(a as u64, b as u64), mix(c as u64, d as u64));
        let (x, y) = (Ratio::new(a, b), Ratio::new(c, d));
        let (p, q) = ((a as i128, b as i128), (c as i128, d as i128));
        let mut say = |f: &str, got: (i128, i128), want: (i128, i128)| { let want = red(want.0, want.1); m.form(f); m.event(got == want, k, || format!("{:?}: want {:?} got {:?}", key, want, got)); };
        say("fraction new", val(x), p);
        say("fraction add", val(x.add(y)), (p.0 * q.1 + q.0 * p.1, p.1 * q.1));
        say("fraction sub", val(x.sub(y)), (p.0 * q.1 - q.0 * p.1, p.1 * q.1));
        say("fraction mul", val(x.mul(y)), (p.0 * q.0, p.1 * q.1));
        say("fraction neg", val(x.neg()), (-p.0, p.1));
        if c != 0 { say("fraction div", val(x.div(y)), (p.0 * q.1, p.1 * q.0)); }
        m.form("fraction equality");
        m.event((x == y) == (p.0 * q.1 == q.0 * p.1), k, || format!("{:?}", key));
        let z = Ratio::new(a * 3, b * -3 * -1);
        m.event(z == x, k ^ 1, || format!("{:?}", key));
        m.form("fraction text");
        m.event(x.to_string() == txt(red(p.0, p.1)), k, || format!("{:?}: {}", key, x));
        if i % 64 == 0 {
            let (s, t) = (Ratio::new(i64::MAX / 2 - a.abs(), 1 + 2 * b.abs()), Ratio::new(i64::MAX / 3 - c.abs(), 1 + 2 * d.abs()));
            let (p, q) = (val(s), val(t));
            m.form("fraction checked");
            let fit = |v: (i128, i128)| i64::try_from(v.0).is_ok() && i64::try_from(v.1).is_ok();
            let (sum, prod) = (red(p.0 * q.1 + q.0 * p.1, p.1 * q.1), red(p.0 * q.0, p.1 * q.1));
            let (u, v) = (attempt(|| s.checked_add(t)), attempt(|| s.checked_mul(t)));
            // out of range or exact, but never wrong
            m.event(matches!(&u, Ok(None)) || matches!(&u, Ok(Some(w)) if val(*w) == sum && fit(sum)), k ^ 2, || format!("{:?} + {:?}", p, q));
            m.event(matches!(&v, Ok(None)) || matches!(&v, Ok(Some(w)) if val(*w) == prod && fit(prod)), k ^ 3, || format!("{:?} * {:?}", p, q));
        }
    }
    m.done();
}
"""

MAIN = "fn main() { let mut m = Mon::new(); matrix(&mut m); m.done(); }\n"


def run(c):
    c.rule = ("one observation = (a) type identity of two dimensions or units of one generated system, compared with equality of their exponent vectors as exact fractions; (b) one printed "
              "dimension compared with the factors in lowest terms; (c) the type of one intermediate result of a generated program (as C02, with fractions); (d) one operation of the fraction "
              "type against 128-bit arithmetic; distinct = distinct definitions, values or statements")
    c.assumptions = ["exponents and their sums stay within the range of the fraction type (64 bits)", "part (d) is skipped if the internal fraction type is not reachable under its present name"]
    d = deps("rat")
    jobs = []
    for i in range(c.pick(14, 80)):
        mod, matrix, n = system(Draw(c, f"sys{i}"), c.pick(30, 50))
        jobs.append((f"sys_{i}", PRELUDE + HELP + mod + matrix + MAIN, True, "many notations/"))
    for i in range(c.pick(8, 40)):
        jobs.append((f"chain_{i}", chains(Draw(c, f"chain{i}"), c.pick(40, 60)) + MAIN, True, "chains/"))
    for i in range(c.pick(6, 40)):
        r = random.Random(f"C18/{c.seed}/prog{i}")
        jobs.append((f"prog_{i}", algebra.source([algebra.make(r, [1, 2, 3, 5, 7, 4][i % 6], True, False, c.pick(140, 220), "sys")]), True, "programs/"))
    jobs.append(("ratio", RATIO, False, ""))

    def one(job):
        name, src, must, label = job
        comp = c.compile(c.write(name + ".rs", src), d, must=must, opt=1 if name == "ratio" else None)
        if comp.ok:
            c.run(comp.out, [c.seed, c.pick(60000, 3000000)], label=label)
        else:
            c.extra[f"skipped {name}"] = True

    pmap(one, jobs)
    c.extra["systems"] = c.pick(14, 80)
    return 20000
