"""Straight-line programs over quantities whose dimension every statement's oracle knows (C02, C18)."""
from fractions import Fraction

from gen import PRELUDE

NAMES = ["Length", "Time", "Mass", "Temperature", "Current", "Amount", "Luminosity", "Money", "People", "Data", "Angle", "Heat"]

WIDE = [8, 16, 31, 32, 33, 100, 127, 128, 129, 200, 255, 256, 257, 300, 1000, 32767, 32768, 65536, 65537, 2147483647, -8, -100, -128, -129, -257, -32768, -32769, -2147483647, -2147483648]


def text_exp(e, rational_style=None):
    """An exponent as it is written in a definition."""
    if e.denominator == 1:
        return str(e.numerator)
    return f"({e.numerator}/{e.denominator})"


def flat(exps, names):
    """A definition that multiplies every base dimension at most once."""
    num = [(n, e) for n, e in zip(names, exps) if e > 0]
    den = [(n, -e) for n, e in zip(names, exps) if e < 0]
    p = lambda n, e: n if e == 1 else f"{n}^{text_exp(e)}"
    out = " * ".join(p(n, e) for n, e in num) or "1"
    for n, e in den:
        out += f" / {p(n, e)}"
    return out


class Program:
    def __init__(self, r, nbase, rational, vectors, modname="sys"):
        self.r, self.n, self.rational, self.vectors = r, nbase, rational, vectors
        self.names = r.sample(NAMES, nbase)
        self.mod = modname
        self.alias = {}
        self.lines = []
        self.vars = []  # (name, storage, dims)
        self.units = []  # (name, dims)
        self.k = 0

    def of(self, dims):
        """The alias for a dimension."""
        dims = tuple(dims)
        if dims not in self.alias:
            self.alias[dims] = f"E{len(self.alias)}"
        return self.alias[dims]

    def emit(self, form, expr, storage, dims, keep=True):
        name = f"t{self.k}"
        self.k += 1
        a = self.of(dims)
        shown = flat(dims, self.names).replace(" ", "")
        self.lines.append(f'let {name} = {expr}; chk(m, "{form}", &{name}, TypeId::of::<dimensions::{a}<{storage}>>(), {self.k}, "{expr} should be {shown}");')
        if keep:
            self.vars.append((name, storage, tuple(dims)))
        return name

    def fits(self, dims):
        return all(abs(e.numerator) <= 24 and e.denominator <= 36 for e in dims)

    def start(self):
        r = self.r
        z = [Fraction(0)] * self.n
        for i in range(self.n):
            d = list(z)
            d[i] = Fraction(1)
            self.units.append((f"units::u{i}", tuple(d)))
        for _ in range(min(8, self.n * 2)):
            d = tuple(Fraction(r.randint(-3, 3)) if r.random() < 0.6 else Fraction(0) for _ in range(self.n))
            if self.rational and r.random() < 0.5:
                d = tuple(e / r.choice([1, 2, 3, 4, 6]) for e in d)
            self.units.append((f"units::w{len(self.units)}", d))
            self.of(d)
        sts = ["f64", "f32"] + (["Vec2", "Vec3", "DVec2", "DVec3"] if self.vectors else [])
        for st in sts:
            for _ in range(3 if st[0] == "f" else 2):
                d = tuple(Fraction(r.randint(-4, 4)) if r.random() < 0.7 else Fraction(0) for _ in range(self.n))
                if self.rational and r.random() < 0.5:
                    d = tuple(e / r.choice([1, 2, 3, 5]) for e in d)
                val = f"1.5{st}" if st[0] == "f" else f"{st}::splat(1.5)"
                self.emit("given", f"dimensions::{self.of(d)}::<{st}>::new_unchecked({val})", st, d)

    def step(self):
        r = self.r
        for _ in range(30):
            if self._step(r):
                return

    def _step(self, r):
        add = lambda a, b: tuple(x + y for x, y in zip(a, b))
        sub = lambda a, b: tuple(x - y for x, y in zip(a, b))
        neg = lambda a: tuple(-x for x in a)
        mul = lambda a, k: tuple(x * k for x in a)
        recent = lambda ok: [v for v in self.vars if ok(v)]

        def some(ok=lambda v: True):
            vs = recent(ok)
            if not vs:
                return None
            return r.choice(vs[-6:] if r.random() < 0.6 else vs)

        kind = r.choice(["qq"] * 6 + ["nq"] * 3 + ["uq"] * 4 + ["nu"] * 3 + ["uu"] * 3 + ["pow"] * 5 + ["root"] * 4 + ["vec"] * 4 + ["alias"] * 2 + ["ref"])
        ref = lambda s: r.choice(["", "&"]) + s
        bare = {"f64": "2.0f64", "f32": "2.0f32", "Vec2": "Vec2::ONE", "Vec3": "Vec3::ONE", "DVec2": "DVec2::ONE", "DVec3": "DVec3::ONE"}
        base = {"f64": "f64", "f32": "f32", "Vec2": "f32", "Vec3": "f32", "DVec2": "f64", "DVec3": "f64"}
        if kind == "qq":
            a = some()
            b = some(lambda v: v[1] == a[1] or base[a[1]] == v[1] or base[v[1]] == a[1])
            op = r.choice("*/")
            st = a[1] if a[1][0] != "f" else b[1]
            d = (add if op == "*" else sub)(a[2], b[2])
            if not self.fits(d):
                return False
            self.emit(f"{a[1]} q {op} {b[1]} q", f"{ref(a[0])} {op} {ref(b[0])}", st, d)
            return True
        if kind == "nq":
            a = some()
            form = r.choice(["n*q", "q*n", "q/n", "n/q"])
            st = r.choice([a[1], a[1], base[a[1]]]) if form != "n*q" else a[1]
            n = bare[st if form in ("q*n", "q/n") else a[1]]
            res = a[1]
            x = ref(a[0])
            n = f"&({n})" if r.random() < 0.3 else f"({n})"
            expr = {"n*q": f"{n} * {x}", "q*n": f"{x} * {n}", "q/n": f"{x} / {n}", "n/q": f"{n} / {x}"}[form]
            self.emit(f"{a[1]} {form}", expr, res, neg(a[2]) if form == "n/q" else a[2])
            return True
        if kind == "uq":
            a = some(lambda v: v[1][0] == "f")
            u, ud = r.choice(self.units)
            form = r.choice(["u*q", "q*u", "q/u", "u/q"])
            d = {"u*q": add(a[2], ud), "q*u": add(a[2], ud), "q/u": sub(a[2], ud), "u/q": sub(ud, a[2])}[form]
            if not self.fits(d):
                return False
            expr = {"u*q": f"{u} * {a[0]}", "q*u": f"{a[0]} * {u}", "q/u": f"{a[0]} / {u}", "u/q": f"{u} / {a[0]}"}[form]
            self.emit(f"{a[1]} {form}", expr, a[1], d)
            return True
        if kind == "nu":
            u, ud = r.choice(self.units)
            st = r.choice(list(bare) if self.vectors else ["f64", "f32"])
            n = bare[st]
            form = r.choice(["n*u", "u*n", "n/u", "u/n", "new"] if st[0] == "f" else ["n*u", "u*n", "n/u"])
            expr = {"n*u": f"{n} * {u}", "u*n": f"{u} * {n}", "n/u": f"{n} / {u}", "u/n": f"{u} / {n}", "new": f"{u}.new({n})"}[form]
            self.emit(f"{st} {form}", expr, st, neg(ud) if form == "n/u" else ud)
            return True
        if kind == "uu":
            (u, ud), (v, vd) = r.choice(self.units), r.choice(self.units)
            op = r.choice("*/")
            rd = (add if op == "*" else sub)(ud, vd)
            if not self.fits(rd):
                return False
            w = f"({u} {op} {v})"
            form = r.choice(["n*r", "r*n", "n/r", "r/n", "new", "r*q", "q*r", "q/r", "r/q"])
            st = r.choice(["f64", "f32"])
            n = bare[st]
            a = some(lambda t: t[1][0] == "f")
            d = {"n*r": rd, "r*n": rd, "n/r": neg(rd), "r/n": rd, "new": rd, "r*q": add(rd, a[2]), "q*r": add(rd, a[2]), "q/r": sub(a[2], rd), "r/q": sub(rd, a[2])}[form]
            if not self.fits(d):
                return False
            expr = {"n*r": f"{n} * {w}", "r*n": f"{w} * {n}", "n/r": f"{n} / {w}", "r/n": f"{w} / {n}", "new": f"{w}.new({n})",
                    "r*q": f"{w} * {a[0]}", "q*r": f"{a[0]} * {w}", "q/r": f"{a[0]} / {w}", "r/q": f"{w} / {a[0]}"}[form]
            self.emit(f"unit{op}unit {form}", expr, a[1] if "q" in form else st, d)
            return True
        if kind == "pow":
            a = some(lambda v: v[1][0] == "f")
            form = r.choice(["squared", "cubed", "powi", "powi", "powi"])
            k = {"squared": 2, "cubed": 3}.get(form, r.choice([-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7] if r.random() < 0.8 else WIDE))
            d = mul(a[2], k)
            wide = form == "powi" and abs(k) > 7
            if not (self.fits(d) or wide and all(abs(e.numerator) < 10**12 and e.denominator <= 36 for e in d)):
                return False
            call = f"{form}()" if form != "powi" else f"powi::<{k if k >= 0 else '{%d}' % k}>()"
            self.emit(f"{a[1]} {form}{k if form == 'powi' else ''}", f"{a[0]}.{call}", a[1], d, keep=not wide)
            return True
        if kind == "root":
            k, form = r.choice([(2, "sqrt"), (3, "cbrt")])
            ok = lambda v: v[1][0] == "f" and (self.rational or all(e % k == 0 for e in v[2]))
            a = some(lambda v: ok(v) and any(v[2])) or some(ok)
            if a is None:
                return False
            d = tuple(e / k for e in a[2])
            if not self.fits(d):
                return False
            self.emit(f"{a[1]} {form}", f"{a[0]}.{form}()", a[1], d)
            return True
        if kind == "vec":
            if not self.vectors:
                return False
            a = some(lambda v: v[1][0] != "f")
            b = some(lambda v: v[1] == a[1])
            f = base[a[1]]
            form = r.choice(["dot", "dot", "distance_squared", "length", "x", "y", "normalize", "distance", "new_x", "new", "min", "zero"])
            z = tuple(Fraction(0) for _ in a[2])
            e = {
                "dot": (f"{a[0]}.dot({b[0]})", f, add(a[2], b[2])),
                "distance_squared": (f"{a[0]}.distance_squared(&{a[0]})", f, mul(a[2], 2)),
                "length": (f"{a[0]}.length()", f, a[2]),
                "distance": (f"{a[0]}.distance(&{a[0]})", f, a[2]),
                "x": (f"{a[0]}.x()", f, a[2]),
                "y": (f"{a[0]}.y()", f, a[2]),
                "min": (f"{a[0]}.min({a[0]})", a[1], a[2]),
                "zero": (f"dimensions::{self.of(a[2])}::<{a[1]}>::zero()", a[1], a[2]),
                "normalize": (f"{a[0]}.normalize()", a[1], z),
                "new_x": (f"dimensions::{self.of(a[2])}::<{a[1]}>::new_x({a[0]}.y())", a[1], a[2]),
                "new": (f"dimensions::{self.of(a[2])}::<{a[1]}>::new({', '.join([a[0] + '.x()'] * (3 if a[1][-1] == '3' else 2))})", a[1], a[2]),
            }[form]
            if not self.fits(e[2]):
                return False
            self.emit(f"{a[1]} {form}", e[0], e[1], e[2])
            return True
        if kind == "alias":
            a, b = some(lambda v: v[1] in ("f64", "f32")), some(lambda v: v[1] in ("f64", "f32"))
            b = some(lambda v: v[1] == a[1])
            w = r.choice(["Product", "Quotient"])
            d = (add if w == "Product" else sub)(a[2], b[2])
            if not self.fits(d):
                return False
            ty = f"diman::{w}<dimensions::{self.of(a[2])}<{a[1]}>, dimensions::{self.of(b[2])}<{b[1]}>>"
            # written as a function signature, as documented
            self.k += 1
            shown = flat(d, self.names).replace(" ", "")
            self.lines.append(f'{{ fn f(a: dimensions::{self.of(a[2])}<{a[1]}>, b: dimensions::{self.of(b[2])}<{b[1]}>) -> {ty} {{ a {"*" if w == "Product" else "/"} b }} '
                              f'chk(m, "{a[1]} {w}", &f({a[0]}, {b[0]}), TypeId::of::<dimensions::{self.of(d)}<{a[1]}>>(), {self.k}, "{w} of {a[0]} and {b[0]} should be {shown}"); }}')
            return True
        if kind == "ref":
            a = some()
            form = r.choice(["-{}", "{0} + {0}", "&{0} - {0}", "{}.abs()", "[{0}, {0}].into_iter().sum::<dimensions::" + self.of(a[2]) + f"<{a[1]}>>()"])
            self.emit(f"{a[1]} {form.split('::<')[0]}", form.format(a[0]), a[1], a[2])
            return True
        return False

    def system(self):
        s = [f"diman::unit_system!(\n  quantity_type Quantity;\n  dimension_type Dimension;"]
        for i, n in enumerate(self.names):
            s.append(f"  dimension {n};\n  #[base({n})] #[symbol(s{i}x)] unit u{i};")
        for u, d in self.units[self.n:]:
            un = [f"u{i}" for i in range(self.n)]
            s.append(f"  unit {u[7:]} = {flat(d, un)};")
        for d, a in self.alias.items():
            s.append(f"  dimension {a} = {flat(d, self.names)};")
        s.append(");")
        return "\n".join(s)

    def source(self):
        """All aliases of different dimensions must be different types, or the comparison would say nothing."""
        body = "\n".join(self.lines)
        al = list(self.alias.values())
        ids = ", ".join(f"TypeId::of::<dimensions::{a}<f64>>()" for a in al)
        return f"""
mod {self.mod} {{
mod defs {{
{self.system()}
}}
use self::defs::{{units, dimensions}};
use super::{{chk, TypeId, Mon, Vec2, Vec3, DVec2, DVec3}};
#[inline(never)]
pub fn run(m: &mut Mon) {{
{body}
m.form("different dimensions are different types");
let ids = [{ids}];
for i in 0..ids.len() {{ for j in 0..i {{ let ok = ids[i] != ids[j]; m.event(ok, (i * 100000 + j) as u64, || format!("E{{}} and E{{}} are one type", i, j)); }} }}
}}
}}
"""


HELP = """use std::any::TypeId;
fn chk<T: 'static>(m: &mut Mon, form: &str, x: &T, want: TypeId, key: u64, detail: &str) {
    m.form(form);
    let ok = TypeId::of::<T>() == want;
    let mut h = key;
    for b in detail.bytes() { h = mix(h, b as u64); }
    m.event(ok, h, || format!("{} but is {}", detail, std::any::type_name::<T>()));
}
"""


def source(progs):
    out = [PRELUDE, HELP] + [p.source() for p in progs]
    out.append("fn main() {\n    let mut m = Mon::new();\n")
    out += [f"    {p.mod}::run(&mut m);\n" for p in progs]
    out.append("    m.done();\n}\n")
    return "".join(out)


def make(r, nbase, rational, vectors, steps, modname):
    p = Program(r, nbase, rational, vectors, modname)
    p.start()
    for _ in range(steps):
        p.step()
    return p
