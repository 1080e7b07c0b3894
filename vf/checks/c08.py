"""C08: prefixes, aliases and symbols: what exists, what does not, and what it means."""
import systems
from common import deps, pmap
from gen import PRELUDE, Draw, program
from si_table import PREFIXES
from systems import rust_float

HELP = """use std::any::TypeId;
fn ty<T: 'static>(_: &T) -> TypeId { TypeId::of::<T>() }
#[derive(Clone, Copy)]
pub struct Missing;
fn missing<T: 'static>(_: T) -> bool { TypeId::of::<T>() == TypeId::of::<Missing>() }
fn like<T: serde::de::DeserializeOwned>(_: T, text: &str) -> Option<T> { serde_json::from_str::<T>(&format!("\\"{text}\\"")).ok() }
"""


def source(draw, rational):
    r = draw.r
    s = systems.random_system(r, rational, nbase=r.randint(1, 4), nunits=r.randint(2, 5), prefixes=0.8, symbols=0.8, baseless=0.0)
    env, kinds, symbols = s.env()
    probes = systems.probes(s, "sys", env, kinds)
    # duplicates of the same facts under a unit prefix are the point here, so all are kept, in random order
    r.shuffle(probes)
    probes = probes[:260]
    absent, lines = [], []
    for i in s.items:
        if i.kind != "unit":
            continue
        names = [i.name] + i.aliases
        for p in PREFIXES:
            for n in names:
                if systems.glue(p, n) not in kinds:
                    absent.append(systems.glue(p, n))
        if i.aliases and i.all_prefixes():
            absent.append(i.all_prefixes()[0] + "_" + systems.plain(i.aliases[0]))
            absent.append(systems.plain(i.aliases[0]) + systems.plain(i.name))
        if len(i.all_prefixes()) > 1:
            absent.append("".join(i.all_prefixes()[:2]) + systems.plain(i.name))
        # symbols
        w = f"sys::units::{i.name}.new(1.0f64)"
        if i.symbol:
            for p in [None] + list(PREFIXES):
                sym = ("" if p is None else PREFIXES[p][0]) + i.symbol
                if sym in symbols:
                    owner = symbols[sym]
                    v = env[owner]
                    for text, f, err in ((f"1 {sym}", v.factor, v.err), (f"-3.5 {sym}", v.factor * systems.D("-3.5"), v.err)):
                        lines.append(f'm.form("symbol"); m.close(&"{text}", Ok({rust_float(f)}), attempt(|| like(sys::units::{owner}.new(1.0f64), "{text}").unwrap().value_unchecked()), {int(2 * err + 8)});')
                else:
                    lines.append(f'm.form("no such symbol"); m.same(&"{sym}", true, like({w}, "1 {sym}").is_none());')
        for n in [i.name] + i.aliases + [systems.glue(p, i.name) for p in i.all_prefixes()[:2]]:
            if n not in symbols:
                lines.append(f'm.form("names are not symbols"); m.same(&"{n}", true, like({w}, "1 {n}").is_none());')
    absent = sorted(set(a for a in absent if a not in kinds))
    r.shuffle(absent)
    absent = absent[:220]
    present = r.sample([k for k, v in kinds.items() if v == "unit"], min(20, sum(v == "unit" for v in kinds.values())))
    fallback = "pub mod fallback {\n" + "".join(f"    #[allow(non_upper_case_globals)] pub const {a}: super::Missing = super::Missing;\n" for a in absent + present) + "}\n"
    # a glob import of an inner block is found before the one of the surrounding block
    look = "use fallback::*;\n{\nuse sys::units::*;\n"
    for a in absent:
        look += f'm.form("no such unit"); m.same(&"{a}", true, missing({a}));\n'
    for a in present:
        look += f'm.form("unit exists"); m.same(&"{a}", false, missing({a}));\n'
    look += "}\n"
    parts = [look] + ["\n".join(probes[k:k + 40]) for k in range(0, len(probes), 40)] + ["\n".join(lines[k:k + 60]) for k in range(0, len(lines), 60)]
    return s, program(parts, PRELUDE + systems.module("sys", s), HELP + fallback)


def run(c):
    c.rule = ("one observation = existence, factor, dimension or symbol of one expected or unexpected name of one random system rich in prefix, "
              "metric_prefixes, skip, alias and symbol attributes; distinct = distinct (kind of fact, name or text)")
    jobs = []
    for cfg, rational in (("std", False), ("rat", True)):
        d = deps(cfg)
        for k in range(c.pick(10, 80)):
            s, text = source(Draw(c, f"{cfg}{k}"), rational)
            jobs.append((f"{cfg}_{k}", d, s, text))
    c.extra["systems"] = len(jobs)

    def one(job):
        name, d, s, text = job
        src = c.write(f"{name}.rs", text)
        comp = c.compile(src, d)
        return (comp.out, name.split("_")[0], s) if comp.ok else None

    for r in pmap(one, jobs):
        if r:
            c.run(r[0], [c.seed], label=f"{r[1]}/")
            c.sample(r[2].text("").replace("\n", " ")[:300])
    return 2000
