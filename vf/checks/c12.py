"""C12: what texts and scalars deserialize to, against an offline reading of the text in exact arithmetic.

The oracle has three answers: MUST be accepted with this value, MUST NOT be accepted, and MAY (the documentation leaves it open:
then an error is fine, and an acceptance has to give the denoted value)."""
import re
import struct
from decimal import Decimal as D
from fractions import Fraction as F

import texts
from common import deps, pmap
from gen import FLOATS, PRELUDE, VECS, Draw
from systems import Val

NUMBER = re.compile(r"[+-]?(?:(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?|inf|infinity|nan)\Z", re.I | re.A)

HELP = """
use serde::{Deserialize, de::{DeserializeOwned, IntoDeserializer, value::Error as VE}};
fn unhex(s: &str) -> String { let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect(); String::from_utf8(b).unwrap() }
fn read<T: DeserializeOwned>(how: &str, text: &str) -> Result<T, String> {
    match how {
        "json" => serde_json::from_str(&serde_json::to_string(text).unwrap()).map_err(|e| e.to_string()),
        "jsonvalue" => serde_json::from_value(serde_json::Value::String(text.to_string())).map_err(|e| e.to_string()),
        "yaml" => serde_yaml::from_str(&serde_yaml::to_string(text).unwrap()).map_err(|e| e.to_string()),
        "str" => T::deserialize(IntoDeserializer::<VE>::into_deserializer(text)).map_err(|e| e.to_string()),
        "string" => T::deserialize(IntoDeserializer::<VE>::into_deserializer(text.to_string())).map_err(|e| e.to_string()),
        "rawyaml" => serde_yaml::from_str(text).map_err(|e| e.to_string()),
        "rawjson" => serde_json::from_str(text).map_err(|e| e.to_string()),
        "i64" => T::deserialize(IntoDeserializer::<VE>::into_deserializer(text.parse::<i64>().unwrap())).map_err(|e| e.to_string()),
        "u64" => T::deserialize(IntoDeserializer::<VE>::into_deserializer(text.parse::<u64>().unwrap())).map_err(|e| e.to_string()),
        "f64" => T::deserialize(IntoDeserializer::<VE>::into_deserializer(text.parse::<f64>().unwrap())).map_err(|e| e.to_string()),
        "i32" => T::deserialize(IntoDeserializer::<VE>::into_deserializer(text.parse::<i32>().unwrap())).map_err(|e| e.to_string()),
        "u8" => T::deserialize(IntoDeserializer::<VE>::into_deserializer(text.parse::<u8>().unwrap())).map_err(|e| e.to_string()),
        "bool" => T::deserialize(IntoDeserializer::<VE>::into_deserializer(text == "true")).map_err(|e| e.to_string()),
        "unit" => T::deserialize(IntoDeserializer::<VE>::into_deserializer(())).map_err(|e| e.to_string()),
        "seq" => T::deserialize(IntoDeserializer::<VE>::into_deserializer(vec![1.0f64, 2.0])).map_err(|e| e.to_string()),
        "f32" => T::deserialize(IntoDeserializer::<VE>::into_deserializer(text.parse::<f32>().unwrap())).map_err(|e| e.to_string()),
        "i8" => T::deserialize(IntoDeserializer::<VE>::into_deserializer(text.parse::<i8>().unwrap())).map_err(|e| e.to_string()),
        "bytes" => T::deserialize(serde::de::value::BytesDeserializer::<VE>::new(text.as_bytes())).map_err(|e| e.to_string()),
        "borrowed" => T::deserialize(serde::de::value::BorrowedStrDeserializer::<VE>::new(text)).map_err(|e| e.to_string()),
        "cow" => T::deserialize(IntoDeserializer::<VE>::into_deserializer(std::borrow::Cow::Borrowed(text))).map_err(|e| e.to_string()),
        "char" => T::deserialize(IntoDeserializer::<VE>::into_deserializer(text.chars().next().unwrap())).map_err(|e| e.to_string()),
        "map" => T::deserialize(serde::de::value::MapDeserializer::<_, VE>::new([(text, 1.0f64)].into_iter())).map_err(|e| e.to_string()),
        "entry" => T::deserialize(serde::de::value::MapDeserializer::<_, VE>::new([("value", text)].into_iter())).map_err(|e| e.to_string()),
        _ => panic!("unknown carrier"),
    }
}
trait Words { fn words(self) -> String; }
impl Words for f64 { fn words(self) -> String { format!("{:x}", self.to_bits()) } }
impl Words for f32 { fn words(self) -> String { format!("{:x}", self.to_bits()) } }
impl Words for Vec2 { fn words(self) -> String { self.to_array().iter().map(|x| x.words()).collect::<Vec<_>>().join(",") } }
impl Words for Vec3 { fn words(self) -> String { self.to_array().iter().map(|x| x.words()).collect::<Vec<_>>().join(",") } }
impl Words for DVec2 { fn words(self) -> String { self.to_array().iter().map(|x| x.words()).collect::<Vec<_>>().join(",") } }
impl Words for DVec3 { fn words(self) -> String { self.to_array().iter().map(|x| x.words()).collect::<Vec<_>>().join(",") } }
fn go<T: DeserializeOwned, S: Words>(id: &str, how: &str, text: &str, _witness: T, take: impl Fn(T) -> S) {
    let r = attempt(|| read::<T>(how, text).map(&take));
    println!("{}\\t{}", id, match r { Err(p) => format!("panic {}", p.0.replace(['\\n', '\\t'], " ")), Ok(Err(_)) => "error".to_string(), Ok(Ok(s)) => format!("ok {}", s.words()) });
}
"""


def source(world, targets):
    b = [PRELUDE, world.decl, HELP, world.helper()]
    arms = ""
    for i, (dims, expr, storages) in enumerate(targets):
        body = "match st {\n"
        for S in storages:
            zero = f"0.0{S}" if S in FLOATS else f"{S}::ZERO"
            body += f'"{S}" => go(id, how, text, with({expr}, {zero}), |q| q.value_unchecked()),\n'
        b.append(f"#[inline(never)] fn t{i}(id: &str, st: &str, how: &str, text: &str) {{ {body}_ => panic!() }} }}\n")
        arms += f'"{i}" => t{i}(f[0], f[2], f[3], &text),\n'
    b.append("""fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut input = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut input).unwrap();
    for line in input.lines() {
        let f: Vec<&str> = line.split('\\t').collect();
        let text = unhex(f[4]);
        match f[1] {
""" + arms + """            _ => panic!(),
        }
    }
}
""")
    return "".join(b)


# ---------------------------------------------------------------- the oracle


def number_value(s):
    """Denoted value of a number, as a Decimal or a float special; None if it is not a number."""
    if not NUMBER.match(s):
        return None
    low = s.lower().lstrip("+-")
    neg = s.startswith("-")
    if low.startswith("inf"):
        return float("-inf") if neg else float("inf")
    if low == "nan":
        return float("nan")
    try:
        d = D(s)
        if abs(d.adjusted()) < 400:
            return d
    except ArithmeticError:
        pass
    # an exponent beyond everything: infinite or zero, as for the storage type
    return float(s)


RANGE = {"f32": (D("1e-30"), D("1e30")), "f64": (D("1e-290"), D("1e290"))}


def scalar_of(S):
    return S if S in FLOATS else VECS[S][0]


def reading(world, S, dims, text):
    """('must'|'may'|'no', list of component values, factor Val)"""
    odd = False
    stripped = text.strip()
    if any(ch.isspace() and ch != " " for ch in text) or stripped != text or "  " in text:
        odd = True
    if S in FLOATS:
        parts = stripped.split()
        if not parts:
            return ("no",)
        nums, units = parts[:1], parts[1:]
    else:
        if not stripped.startswith("(") or ")" not in stripped:
            return ("no",)
        inner, rest = stripped[1:].split(")", 1)
        if rest and not rest[0].isspace():
            odd = True
        if inner.strip() != inner:
            odd = True
        nums, units = inner.split(), rest.split()
        if len(nums) != VECS[S][1]:
            return ("no",)
    values = [number_value(x) for x in nums]
    if any(v is None for v in values):
        return ("no",)
    for u in units:
        _, has, e = u.partition("^")
        if has:
            p = texts.read_exponent(e)
            if p is None:
                return ("no",)
            canonical = str(p.numerator) if p.denominator == 1 else f"{p.numerator}/{p.denominator}"
            if e != canonical:
                odd = True
            if abs(p.numerator) > 10**6 or p.denominator > 10**6:
                odd = True
                if abs(p.numerator) >= 2**62 or p.denominator >= 2**62:
                    return ("nopanic",)
            if "/" in e and not world.rational:
                # integer systems have no fractional powers
                return ("no",) if p.denominator != 1 else ("nopanic",)
    try:
        v = texts.read_units(world, units)
    except ArithmeticError:
        return ("nopanic",)
    if v is None:
        return ("no",)
    if v.dims != {k: x for k, x in dims.items() if x}:
        return ("no",)
    # base units only: the value is the number as the storage type reads it
    plain = all(world.symbols[u.partition("^")[0]].err == 0 and world.symbols[u.partition("^")[0]].factor == 1 for u in units)
    return ("may" if odd else "must", values, v, plain)


def expected(value, factor, st):
    if isinstance(value, float):
        return value * (1 if factor > 0 else -1)
    return float(value * factor)


def nearest_f32(d):
    """The single precision number closest to a Decimal, ties to even; rounding to double first would round twice."""
    f = struct.unpack("<f", struct.pack("<f", float(d)))[0]
    i = struct.unpack("<I", struct.pack("<f", f))[0]
    best = None
    for k in (i - 1, i, i + 1):
        if 0 <= k < 2**32 and (k & 0x7F800000) != 0x7F800000:
            g = struct.unpack("<f", struct.pack("<I", k))[0]
            key = (abs(F(g) - F(d)), k & 1)
            if (g < 0) == (f < 0) and (best is None or key < best[0]):
                best = (key, g)
    return best[1] if best else f


def ulps(a, b, st):
    """Distance in units of the last place; a is a double holding the exact value, b the observed one."""
    if a != a or b != b:
        return 0 if (a != a and b != b) else float("inf")
    if st == "f32":
        try:
            a = struct.unpack("<f", struct.pack("<f", a))[0]
        except OverflowError:
            a = float("inf") if a > 0 else float("-inf")
        w, q = "<f", "<i"
    else:
        w, q = "<d", "<q"
    if a == b:
        return 0

    def o(x):
        i = struct.unpack(q, struct.pack(w, x))[0]
        return i if i >= 0 else -(i & (2**31 - 1 if st == "f32" else 2**63 - 1))

    return abs(o(a) - o(b))


# ---------------------------------------------------------------- inputs


def midpoint(r):
    """A number in the middle between two neighbours in single or double precision, or a hair off it."""
    if r.random() < 0.6:
        i = r.choice([0x3F800000, 0x42280000, 0x3DCCCCCC, 0x4B000000]) + r.randrange(0, 1000)
        a, b = (struct.unpack("<f", struct.pack("<I", k))[0] for k in (i, i + 1))
    else:
        i = r.choice([0x3FF0000000000000, 0x4045000000000000, 0x3FB999999999999A]) + r.randrange(0, 1000)
        a, b = (struct.unpack("<d", struct.pack("<Q", k))[0] for k in (i, i + 1))
    m = (D(a) + D(b)) / 2
    m += r.choice([D(0), D("1e-25"), D("-1e-25"), D("1e-40"), D("-1e-40"), D("1e-17"), D("-1e-17")])
    return r.choice(["", "-"]) + format(m, "f")


def numbers(r):
    k = r.random()
    if k < 0.5:
        return r.choice(["1", "0", "-0", "5", "-3", "2.5", "-0.125", "1e3", "1E-3", "+4", "1.", ".5", "007", "1.0000000000000000001", "6.02214076e23", "-1e-10", "123456789012345678", "3.4028235e20", "1e0"])
    if k < 0.85:
        return f"{r.uniform(-1000, 1000):.{r.randint(0, 17)}g}"
    if k < 0.92:
        return midpoint(r)
    return r.choice(["inf", "-inf", "NaN", "nan", "infinity", "INF", "-Infinity"])


BAD_NUMBERS = ["", "x", "1x", "0x10", "1_000", "1e", "e5", "--1", "+-1", "1..2", "1.2.3", "1,5", "½", "١", "1e5.5", "NaNs", "infin", "1f64", "1.0f32", "-", "+", ".", "1e+", "١٢", "1d", "(1)",
               "1;", "'1'", "0b1", "1/2", "1+1", "∞", "1\u00a0", "\u200b1", "1\u0660"]
BAD_UNITS = ["", "^", "^2", "$^", "$^^2", "$^2^3", "$^x", "$^2.0", "$^1.5", "$*$", "$/$", "$·$", "1", "$2", "$^-", "$^--2", "$^(2)", "$^(1/2)", "$^²", "$²", "$^1/0", "$^1/-2", "$^/2", "$^1/", "$^1/2/3", "$^0x1", "$_", "_$", "$$", "$,", "-$", "$-1", "($)", "$\u200b",
             "kk$", "x$x", "$^2e0", "$^1_0", "$^ ", "$^NaN", "$^٢", "\u0000", "🦀", "𝕞", "%", "$^99999999999999999999999999", "$^-2147483648", "$^2147483648", "$^9223372036854775807", "$^-9223372036854775808", "$^1/9223372036854775807", "$^2147483647/2147483646", "$^-2147483648/3"]


def spell(r, dims, world, extra=0):
    """Unit tokens of the given dimension: base symbols in random portions plus pairs that cancel in dimension only."""
    out = []
    by = {}
    for s, v in world.symbols.items():
        by.setdefault(tuple(sorted(v.dims.items())), []).append(s)
    single = {b: by.get(((b, F(1)),), []) for b in world.bases}
    left = dict(dims)
    if extra:
        # a composed unit first, the base units have to make up for it
        for _ in range(extra):
            s = r.choice(list(world.symbols))
            p = F(r.choice([1, 1, 1, -1, 2, -2, 3]))
            out.append((s, p))
            for b, x in world.symbols[s].dims.items():
                left[b] = left.get(b, F(0)) - p * x
    for b, x in left.items():
        if not x:
            continue
        if not single[b]:
            return None
        while x:
            p = x if r.random() < 0.7 else F(r.choice([-2, -1, 1, 2, 3]))
            out.append((r.choice(single[b]), p))
            x -= p
            if len(out) > 14:
                p, x = x, 0
                if p:
                    out.append((single[b][0], p))
    r.shuffle(out)
    toks = []
    for s, p in out:
        e = str(p.numerator) if p.denominator == 1 else f"{p.numerator}/{p.denominator}"
        if p == 1 and r.random() < 0.8:
            toks.append(s)
        else:
            toks.append(f"{s}^{e}")
    if r.random() < 0.1:
        toks.insert(0, r.choice(list(world.symbols)) + "^0")
    return toks


JUNK = [chr(x) for x in range(33, 127)]


def junk(r, world, targets):
    """Every printable character before, behind, inside and between the parts of a good text."""
    out = []
    for ch in JUNK:
        i = r.randrange(len(targets))
        dims, _, storages = targets[i]
        toks = spell(r, dims, world, r.choice([0, 1]))
        if toks is None:
            continue
        for S in (r.choice(FLOATS), r.choice([x for x in storages if x in VECS])):
            vec = S in VECS
            parts = [numbers(r) for _ in range(VECS[S][1] if vec else 1)]
            num = "(" + " ".join(parts) + ")" if vec else parts[0]
            at = r.randrange(len(toks)) if toks else 0
            t = toks[at] if toks else ""

            def units(x):
                return [num] + toks[:at] + x + toks[at + 1:]
            texts_ = [[ch + num] + toks, [num + ch] + toks, [num, ch] + toks, [ch, num] + toks, [num] + toks + [ch], [num[:len(num) // 2] + ch + num[len(num) // 2:]] + toks]
            if vec:
                q = r.randrange(len(parts))
                for x in (ch + parts[q], parts[q] + ch, parts[q] + " " + ch):
                    texts_.append(["(" + " ".join(parts[:q] + [x] + parts[q + 1:]) + ")"] + toks)
                texts_ += [[ch + num[1:]] + toks, [num[:-1] + ch] + toks, [num[1:-1] + ch] + toks, [ch + num[1:-1]] + toks, ["(" + ch.join(parts) + ")"] + toks, ["(" + (ch + " ").join(parts) + ")"] + toks]
            if t:
                texts_ += [units([ch + t]), units([t + ch]), units([t.replace("^", ch)]), units([t[:1] + ch + t[1:]]), units([t, ch]), units([t + "^" + ch]), [num + ch + ch.join(toks)]]
            for x in texts_:
                out.append((i, S, r.choice(["json", "yaml", "jsonvalue", "str", "string"]), " ".join(x), "one character too many"))
    return out


def bracket(r, n, sp=" "):
    return "(" + sp.join(numbers(r) for _ in range(n)) + ")"


def cases(r, world, targets, count, rational):
    out = []
    syms = list(world.symbols)
    for k in range(count):
        i = r.randrange(len(targets))
        dims, _, storages = targets[i]
        S = r.choice(storages)
        num = numbers(r) if S in FLOATS else bracket(r, VECS[S][1])
        toks = spell(r, dims, world, r.choice([0, 0, 0, 1, 1, 2]))
        if toks is None:
            continue
        how = r.choice(["json", "yaml", "jsonvalue", "str", "string", "borrowed", "cow"])
        kind = r.random()
        if kind < 0.45:
            text = " ".join([num] + toks)
            label = "denotes a quantity"
        elif kind < 0.55:
            # the dimension is off
            d2 = dict(dims)
            b = r.choice([x for x in world.bases if x in world.based])
            d2[b] = d2.get(b, F(0)) + r.choice([F(1), F(-1), F(2), -2 * d2.get(b, F(0)) or F(1)] + ([F(1, 2)] if rational else []))
            toks = spell(r, d2, world, r.choice([0, 1]))
            text = " ".join([num] + toks)
            label = "wrong dimension"
        elif kind < 0.62:
            text = num if r.random() < 0.7 else num + " " + r.choice(syms)
            label = "bare or single unit"
        elif kind < 0.72:
            t = r.choice(BAD_UNITS).replace("$", r.choice(syms))
            toks = toks + [t] if r.random() < 0.5 else [t] + toks
            text = " ".join([num] + toks)
            label = "bad unit"
        elif kind < 0.82:
            bad = r.choice(BAD_NUMBERS)
            if S in FLOATS:
                text = " ".join([bad] + toks)
            else:
                n = VECS[S][1]
                parts = [numbers(r) for _ in range(n)]
                f = r.random()
                if f < 0.3:
                    parts[r.randrange(n)] = bad
                    v = "(" + " ".join(parts) + ")"
                elif f < 0.5:
                    v = bracket(r, r.choice([0, 1, n - 1, n + 1, n + 2, 7]))
                else:
                    p = " ".join(parts)
                    v = r.choice([f"[{p}]", f"({p}", f"{p})", f"(({p}))", f"({p}))", f"(({p})", p, f"{{{p}}}", f"<{p}>", f"({p}](", f"){p}(", f"x({p})", f"1 ({p})", f"({', '.join(parts)})",
                                  f"-({p})", f"({p}) ({p})", f"({p})({p})", f"()({p})", f"( {p} )", f"({p[:-1]})", "()", ")", "(", ")(", "( )", f"€({p})", f"({p}"[:-1] + "é)"])
                text = " ".join([v] + toks)
            label = "bad number"
        elif kind < 0.90:
            # spacing and mutation of a good text
            text = " ".join([num] + toks)
            f = r.random()
            if f < 0.3:
                text = r.choice(["  ", "\t", "\n", " "]) + text + r.choice(["", " ", "\n"])
            elif f < 0.5:
                text = text.replace(" ", r.choice(["  ", "\t", "\n", "\u2003", "\u00a0"]), 1)
            elif f < 0.8 and text:
                p = r.randrange(len(text))
                text = text[:p] + r.choice(["", "", "1", "^", "-", "é", "(", ")", " ", "e", ".", r.choice(JUNK)]) + text[p + r.choice([0, 1]):]
            else:
                text = text.replace(" ", "", 1)
            label = "mutated"
        elif kind < 0.95:
            text = r.choice(["", " ", "\n", "null", "true", "[]", "{}", "m" * 5000, "1 " + " ".join([r.choice(syms)] * 800), "9" * 4000, "1e" + "9" * 30, "1e-" + "9" * 30, "(" * 3000, ")" * 3000,
                             "\u0000", "🦀🦀", "é)", "(é", "1 \ud7ff", "1 " + r.choice(syms) + "^" + "9" * 40, "1 " + (r.choice(syms) + "^-2147483648 ") * 40,
                             "1 " + (r.choice(syms) + "^2147483647/2147483629 ") * 6, "".join(chr(r.choice([r.randrange(32, 127), r.randrange(0xA0, 0x2FF), r.randrange(0x1F300, 0x1F5FF)])) for _ in range(r.randint(1, 40)))])
            label = "hostile"
        else:
            how = r.choice(["i64", "u64", "f64", "i32", "u8", "bool", "unit", "seq", "rawyaml", "rawjson", "f32", "i8", "bytes", "char", "map", "entry"])
            text = {"i64": lambda: str(r.choice([0, 1, -1, 2**53 + 1, -(2**63), 2**63 - 1, r.randrange(-10**6, 10**6)])), "u64": lambda: str(r.choice([0, 7, 2**64 - 1, 2**53 + 1, r.randrange(10**9)])),
                    "f64": lambda: repr(r.choice([0.0, -2.5, 1e300, 0.1, -1e-40, 3.5e38])), "i32": lambda: str(r.randrange(-2**31, 2**31)), "u8": lambda: str(r.randrange(256)), "bool": lambda: r.choice(["true", "false"]),
                    "f32": lambda: r.choice(["0.5", "-3", "1048576.5"]), "i8": lambda: str(r.randrange(-128, 128)), "bytes": lambda: " ".join([num] + toks), "entry": lambda: " ".join([num] + toks), "map": lambda: r.choice(["value", "x", "1"]),
                    "char": lambda: r.choice("0123456789 m-^("),
                    "unit": lambda: "", "seq": lambda: "", "rawyaml": lambda: r.choice(["[1, 2]", "{a: 1}", "[]", "~", "{}", "[1, 2, 3]"]), "rawjson": lambda: r.choice(["[1,2]", "null", "{}", "true", "[]", "[\"1\"]"])}[how]()
            label = "scalar"
        out.append((i, S, how, text, label))
    return out


def verdict(world, dims, S, how, text):
    none = not any(dims.values())
    if how in ("bool", "unit", "seq", "rawyaml", "rawjson", "bytes", "map", "entry"):
        return ("no",)
    if how in ("i64", "u64", "f64", "i32", "u8", "i8", "f32"):
        if S not in FLOATS or not none:
            return ("no",)
        return ("must", [D(text) if how != "f64" else D(repr(float(text)))], Val({}, D(1), 0), False)
    return reading(world, S, dims, text)


def run(c):
    c.rule = ("one observation = the outcome of deserializing one text or scalar as a quantity of one dimension and storage type, compared with an "
              "offline reading of the text by the unit definitions in exact arithmetic; distinct = distinct (dimension, storage, carrier, text)")
    c.assumptions = ["a number is what the storage type's FromStr accepts; separators other than single spaces and non-canonical exponents may be accepted or refused"]
    jobs = []
    for cfg, rational in (("std", False), ("rat", True)):
        d = deps(cfg)
        ws = [(f"{cfg}_si", texts.si_world())] + [(f"{cfg}_{k}", texts.random_world(Draw(c, f"{cfg}{k}").r, rational)) for k in range(c.pick(4, 20))]
        for name, w in ws:
            w.rational = rational
            draw = Draw(c, "t" + name)
            bases = [b for b in w.bases if b in w.based]
            ok = [x for x in w.named if all(b in w.based for b in x)]
            dims = [{}] + draw.r.sample(ok, min(len(ok), 6)) + [texts.random_dims(draw.r, bases, rational) for _ in range(c.pick(6, 12))]
            targets = [(x, texts.one_of(w.mod, x, w.bases), list(FLOATS) + draw.r.sample(list(VECS), 2)) for x in dims]
            jobs.append((name, d, w, targets, source(w, targets), cases(draw.r, w, targets, c.pick(7000, 60000), rational) + junk(draw.r, w, targets)))
    c.extra["systems"] = len(jobs)

    def one(job):
        name, d, w, targets, text, cs = job
        src = c.write(f"{name}.rs", text)
        comp = c.compile(src, d)
        if not comp.ok:
            return None
        stdin = "".join(f"{n}\t{i}\t{S}\t{how}\t{t.encode('utf-8', 'replace').hex()}\n" for n, (i, S, how, t, _) in enumerate(cs))
        rc, lines, err, _ = c.run(comp.out, [], stdin=stdin.encode())
        return name, w, targets, cs, lines, src

    answers = {"must": 0, "may": 0, "no": 0, "nopanic": 0}
    outcomes = {}
    for res in pmap(one, jobs):
        if not res:
            continue
        name, w, targets, cs, lines, src = res
        if len(lines) != len(cs):
            c.violate("the workload did not answer every input", {"system": name, "answered": len(lines), "asked": len(cs)}, [src])
        for line in lines:
            n, got = line.split("\t", 1)
            i, S, how, text, label = cs[int(n)]
            dims = targets[i][0]
            text = text.encode("utf-8", "replace").decode()
            c.event(f"{name.split('_')[0]}/{'vector' if S in VECS else 'float'} {label}", (name, i, S, how, text))
            want = verdict(w, dims, S, how, text)
            answers[want[0]] += 1
            outcomes[got.split(" ")[0]] = outcomes.get(got.split(" ")[0], 0) + 1
            detail = {"system": name, "dimension": {k: str(x) for k, x in dims.items()}, "storage": S, "carrier": how, "text": text[:400], "outcome": got[:300], "oracle": [str(x) for x in want][:3],
                      "symbols": {s: (str(v.factor), {k: str(x) for k, x in v.dims.items()}) for s, v in list(w.symbols.items()) if s in text} if w.decl else "si"}
            if got.startswith("panic"):
                c.violate("deserialization panicked", detail, [src])
            elif want[0] == "no" and got.startswith("ok"):
                c.violate("a text that denotes no quantity of the dimension is accepted", detail, [src])
            elif want[0] == "must" and got == "error":
                # out of the range of the storage type an error would be as good
                c.violate("a text that denotes a quantity of the dimension is refused", detail, [src])
            elif want[0] in ("must", "may") and got.startswith("ok"):
                _, values, v, plain = want
                st = scalar_of(S)
                lo, hi = RANGE[st]
                if not lo < abs(v.factor) < hi or v.extreme > (28 if st == "f32" else 280):
                    continue
                words = got[3:].split(",")
                fmt = ("<f", "<I") if st == "f32" else ("<d", "<Q")
                for x, word in zip(values, words):
                    g = struct.unpack(fmt[0], struct.pack(fmt[1], int(word, 16)))[0]
                    if not isinstance(x, float) and x and (not lo < abs(x) < hi or not lo < abs(x * v.factor) < hi):
                        continue
                    e = expected(x, v.factor, st)
                    if plain and isinstance(x, D) and x:
                        exact = nearest_f32(x) if st == "f32" else float(x)
                        if g != exact:
                            detail["expected"], detail["got"] = repr(exact), repr(g)
                            c.violate("a number is not read as the storage type reads it", detail, [src])
                            break
                        c.extra["read_exactly"] = c.extra.get("read_exactly", 0) + 1
                        continue
                    tol = (4 if st == "f32" else 4 + 2 * v.err)
                    if ulps(e, g, st) > tol or (e == 0 == g and struct.pack("<d", e) != struct.pack("<d", g)):
                        detail["expected"], detail["got"] = repr(e), repr(g)
                        c.violate("a text is read as another value than it denotes", detail, [src])
                        break
            if c.evals % 9001 == 11:
                c.sample(f"{S} {label} {text[:60]!r} as {detail['dimension']}: {got[:40]}")
    c.extra["oracle_answers"] = answers
    c.extra["outcomes"] = outcomes
    return 55000
