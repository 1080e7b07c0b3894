"""C21: recorded name tables of a system and of its permutations, renamings, extensions and neighbours must be the same."""
import subprocess

import systems
from common import deps, pmap
from gen import PRELUDE, Draw
from systems import F, D, Item

HELP = """use std::any::TypeId;
fn ty<T: 'static>(_: &T) -> TypeId { TypeId::of::<T>() }
fn like<T: serde::de::DeserializeOwned>(_: T, text: &str) -> Option<T> { serde_json::from_str::<T>(&format!("\\"{text}\\"")).ok() }
fn log(variant: &str, fact: &str, value: String) { println!("{}\\t{}\\t{}", variant, fact, value); }
"""


def extended(s, r, where):
    """Unrelated definitions: new base dimensions with their units, new units of factors other than one, new dimensions."""
    t = s.copy()
    env, kinds, symbols = s.env()
    nm = systems.Names(r)
    nm.reserve(kinds)
    nm.used.update(x.lower() for x in systems.QTYPES + systems.DTYPES + ["unit", "units", "dimensions", "constants", "magnitude", "exponent"])
    taken = set(symbols)
    extra = []
    for _ in range(r.randint(1, 3)):
        d, u = nm.dim(), nm.unit()
        extra.append(Item("dimension", d))
        extra.append(Item("unit", u, base=d, symbol=nm.symbol(taken, [])))
        extra.append(Item("dimension", nm.dim(), ("bin", ("name", d), "/", ("name", s.base_dims()[0]), " ")))
        extra.append(Item("unit", nm.unit(), ("bin", ("num", "7.5"), "*", ("name", u), " "), symbol=nm.symbol(taken, [])))
    old = [k for k, v in kinds.items() if v == "unit"]
    for _ in range(r.randint(1, 3)):
        n = r.choice(old)
        if float(env[n].factor) * 3.0e-3 == 1.0:
            continue
        i = Item("unit", nm.unit(), ("bin", ("num", "0.003"), "*", ("name", n), " "), symbol=nm.symbol(taken, []))
        if abs(float(env[n].factor) * 0.003 - 1) > 1e-3:
            extra.append(i)
    extra.append(Item("constant", nm.constant(), ("bin", ("num", "1.25"), "*", ("name", r.choice(old)), " ")))
    t.items = extra + t.items if where else t.items + extra
    return t


def facts(variant, mod, s, probe_of):
    """The same facts for every variant; the list of names comes from the original system."""
    env, kinds, symbols, picks = probe_of
    bases = s.base_dims()
    lines = []
    for n in picks:
        k, v = kinds[n], env[n]
        one = f"{mod}::dimensions::{n}::<f64>::new_unchecked(1.0)" if k == "dimension" else f"{mod}::{k}s::{n}.new(1.0f64)"
        m = systems.lcm_of(v)
        raised = one if m == 1 else f"{one}.powi::<{m}>()"
        lines.append(f'{{ let a = {raised}; let b = {systems.type_of(v, bases, mod, m)}; log("{variant}", "dimension {n}", format!("{{}}", ty(&a) == ty(&b))); }}')
        if k != "dimension":
            lines.append(f'log("{variant}", "factor {n}", format!("{{:x}}", {one}.value_unchecked().to_bits()));')
        lines.append(f'{{ let mut q = {one}; q *= 0.0; q += {{ let mut z = {one}; z *= 0.0; z }}; log("{variant}", "text {n}", format!("{{:?}}", q)); }}')
    for sym, owner in symbols.items():
        if owner in picks:
            lines.append(f'log("{variant}", "symbol {sym}", format!("{{:?}}", like({mod}::units::{owner}.new(1.0f64), "2.5 {sym}").map(|q| q.value_unchecked().to_bits())));')
            lines.append(f'log("{variant}", "symbol {sym}^-2", format!("{{:?}}", like({mod}::units::{owner}.new(1.0f64).powi::<{{-2}}>(), "2.5 {sym}^-2").map(|q| q.value_unchecked().to_bits())));')
    return lines


def source(mods, logs):
    out = [PRELUDE, HELP] + [systems.module(m, s) for m, s in mods]
    k = 0
    parts = [logs[i:i + 60] for i in range(0, len(logs), 60)]
    for i, p in enumerate(parts):
        out.append(f"#[inline(never)] fn part_{i}() {{\n" + "\n".join(p) + "\n}\n")
    out.append("fn main() {\n" + "".join(f"part_{i}();\n" for i in range(len(parts))) + "}\n")
    return "".join(out)


def normal(variant, fact, value):
    """The order of the factors in a text follows the order of the base dimensions, which a permutation changes."""
    if fact.startswith("text") and variant.startswith("permuted"):
        return " ".join(sorted(value.split(" ")))
    return value


def run(c):
    c.rule = ("one observation = one recorded fact (dimension, factor bits, printed text, value of a symbol) of one name in one variant of a random "
              "system (compiled again, permuted, types renamed, extended by unrelated definitions, next to other systems), compared with the same "
              "fact of the original; distinct = distinct (kind of variant, fact)")
    c.assumptions = ["the order of factors within a printed text may follow the order of the base dimensions"]
    jobs = []
    for cfg, rational in (("std", False), ("rat", True)):
        d = deps(cfg)
        for k in range(c.pick(5, 40)):
            draw = Draw(c, f"{cfg}{k}")
            r = draw.r
            types = r.sample(["RenamedValue", "RenamedDims", "Zed", "Aleph"], 4)
            s = systems.random_system(r, rational, nunits=r.randint(5, 10), prefixes=0.2, baseless=0.1, types=False)
            # names the types of a variant will have, as symbols, prefixed symbols and, but for the capitals, dimensions
            nm = systems.Names(r)
            nm.reserve(s.env()[1])
            old = [i.name for i in s.items if i.kind == "unit"]
            s.items.append(Item("unit", nm.unit(), ("bin", ("num", "7.5"), "*", ("name", r.choice(old)), " "), symbol=types[0]))
            s.items.append(Item("unit", nm.unit(), ("bin", ("num", "0.003"), "*", ("name", r.choice(old)), " "), symbol=types[1]))
            s.items.append(Item("dimension", types[2].upper(), ("bin", ("name", s.base_dims()[0]), "*", ("name", s.base_dims()[-1]), " ")))
            env, kinds, symbols = s.env()
            picks = list(kinds)
            if len(picks) > 40:
                generated = [n for n in picks if n not in {i.name for i in s.items}]
                picks = [i.name for i in s.items][:30] + r.sample(generated, min(10, len(generated)))
            po = (env, kinds, symbols, picks)
            variants = {"again": s.copy(), "permuted1": systems.permuted(s, r), "permuted2": systems.permuted(s, r)}
            t = s.copy()
            t.qtype, t.dtype = types[0], types[2]
            variants["renamed"] = t
            variants["extended1"] = extended(s, r, False)
            variants["extended2"] = extended(s, r, True)
            t = systems.permuted(extended(s, r, False), r)
            t.qtype, t.dtype = types[3], types[1]
            variants["permuted3 extended renamed"] = t
            texts = {"base": [("sys", "original", s)]}
            vs = list(variants.items())
            r.shuffle(vs)
            half = len(vs) // 2
            other = systems.random_system(r, rational, nunits=4)
            texts["a"] = [(f"v{i}", v, t) for i, (v, t) in enumerate(vs[:half])] + [("other", None, other)]
            texts["b"] = [("other", None, other)] + [(f"w{i}", v, t) for i, (v, t) in enumerate(vs[half:])]
            texts["c"] = [("sys", "compiled again", s)]
            for part, mods in texts.items():
                logs = []
                for m, v, t in mods:
                    if v:
                        logs += facts(v, m, s, po)
                jobs.append((f"{cfg}_{k}_{part}", d, source([(m, t) for m, v, t in mods], logs)))

    def one(job):
        name, d, text = job
        src = c.write(f"{name}.rs", text)
        comp = c.compile(src, d)
        if not comp.ok:
            return name, None, src
        rc, lines, err, _ = c.run(comp.out, [])
        return name, lines, src

    groups = {}
    for name, lines, src in pmap(one, jobs):
        groups.setdefault(name.rsplit("_", 1)[0], {})[name.rsplit("_", 1)[1]] = (lines, src)
    nvar = 0
    for g, parts in groups.items():
        if parts["base"][0] is None:
            continue
        base = {}
        for line in parts["base"][0]:
            v, f, x = line.split("\t")
            base[f] = x
            if f.startswith("dimension") and x != "true":
                c.violate(f"a name does not have the dimension of its definition: {f}", {"system": g}, [parts["base"][1]])
        for p, (lines, src) in parts.items():
            if p == "base" or lines is None:
                continue
            seen = {}
            for line in lines:
                v, f, x = line.split("\t")
                seen.setdefault(v, {})[f] = x
            for v, table in seen.items():
                nvar += 1
                if set(table) != set(base):
                    c.violate("a variant lost or gained facts", {"system": g, "variant": v, "missing": sorted(set(base) - set(table))}, [src])
                for f, x in table.items():
                    c.event(f"{g.split('_')[0]}/{v}: {f.split(' ')[0]}", (g, f))
                    if normal(v, f, x) != normal(v, f, base.get(f, "?")):
                        c.violate(f"variant '{v}' differs in: {f}", {"system": g, "original": base.get(f), "variant": x}, [src, parts["base"][1]])
                if v != "again" and nvar % 7 == 1:
                    f = sorted(table)[0]
                    c.sample(f"{g} {v}: {f} = {table[f]} as in the original")
    c.extra["systems"] = len(groups)
    c.extra["variants_compared"] = nvar
    return 3000
