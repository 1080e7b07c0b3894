"""C10: Debug text, recorded with the storage type's own text and read back offline by the unit definitions."""
import systems
import texts
from common import deps, pmap
from gen import PRELUDE, STORAGES, Draw

SPECS = ["{}", "{:.3}", "{:12.2}", "{:<9}", "{:+}", "{:08.1}", "{:^15}", "{:.0}", "{:*>14.5}", "{:#}", "{:#>7}", "{:-}"]


def debug(spec):
    return spec.replace("{}", "{:?}").replace("}", "?}").replace("??", "?") if spec != "{}" else "{:?}"


HELP = """
fn out(id: usize, st: &str, spec: usize, key: u64, number: String, text: Result<String, Panic>) {
    let t = match text { Ok(t) => format!("T{}", t), Err(p) => format!("P{}", p.0) };
    println!("{}\\t{}\\t{}\\t{:x}\\t{}\\t{}", id, st, spec, key, number, t.replace('\\n', "\\\\n"));
}
"""


def source(world, draw, targets, storages, n):
    b = [PRELUDE, world.decl, HELP, world.helper()]
    main = "fn main() {\nstd::panic::set_hook(Box::new(|_| {}));\nlet n = size();\n"
    for i, (dims, expr) in enumerate(targets):
        body = ""
        for S in storages:
            body += f"{{ let mut r = rng(\"{i}{S}\"); let mut p = {S}::pool(&mut r, n); if p.len() > n + 8 {{ let k = r.below((p.len() - n) as u64) as usize; p = p[k..].to_vec(); p.truncate(n + 8); }}\nfor v in p {{ let q = with({expr}, v); let k = v.key(); match r.below({len(SPECS) * 2}) {{\n"
            for j, s in enumerate(SPECS):
                if j:
                    body += f'{j} => out({i}, "{S}", {j}, k, format!("{s}", v), attempt(|| format!("{debug(s)}", q))),\n'
            body += f'_ => out({i}, "{S}", 0, k, format!("{{}}", v), attempt(|| format!("{{:?}}", q))),\n}} }} }}\n'
        b.append(f"#[inline(never)] fn t{i}(n: usize) {{\n{body}}}\n")
        main += f"t{i}(n);\n"
    return "".join(b) + main + "}\n"


def norm(x):
    return systems.plain(x).lower().replace("_", "")


def judge(world, dims, number, text):
    """Why the text does not denote the quantity, or None."""
    if text.startswith("P"):
        return "printing panicked: " + text[1:]
    text = text[1:]
    if not text.startswith(number):
        return "the number is not printed as the storage type prints it"
    rest = text[len(number):]
    if rest and not rest.startswith(" "):
        return "the number is not printed as the storage type prints it"
    tokens = rest.split()
    # A dimension without base unit has no symbol; its name stands for it.
    left = dict(dims)
    kept = []
    for t in tokens:
        sym, _, e = t.partition("^")
        hit = [b for b in world.bases if b not in world.based and sym.rstrip("_") in (systems.snake(b), systems.plain(b))]
        hit = hit or [b for b in world.bases if b not in world.based and norm(b) == norm(sym)]
        if sym in world.symbols:
            hit = []
        if hit:
            p = texts.read_exponent(e) if "^" in t else texts.F(1)
            if p is None:
                return "unreadable exponent"
            left[hit[0]] = left.get(hit[0], texts.F(0)) - p
        else:
            kept.append(t)
    v = texts.read_units(world, kept)
    if v is None:
        return "the text is not a product of powers of defined symbols"
    if v.dims != {k: x for k, x in left.items() if x}:
        return f"the text denotes another dimension: {v.dims}"
    if abs(float(v.factor) - 1) > 1e-12 * (1 + v.err):
        return f"the text denotes a factor of {float(v.factor)}"
    for t in tokens:
        _, has, e = t.partition("^")
        if has:
            p = texts.read_exponent(e)
            want = str(p.numerator) if p.denominator == 1 else f"{p.numerator}/{p.denominator}"
            if e != want:
                return f"the exponent {e} is not in lowest terms"
    return None


def worlds(c, cfg, rational, count):
    out = [(f"{cfg}_si", texts.si_world())]
    for k in range(count):
        out.append((f"{cfg}_{k}", texts.random_world(Draw(c, f"{cfg}{k}").r, rational)))
    return out


def run(c):
    c.rule = ("one observation = the Debug text of one quantity under one format specification, compared with the storage type's text and read back by "
              "the unit definitions in exact arithmetic; distinct = distinct (dimension, storage, specification, value)")
    c.assumptions = ["for a dimension without base unit the name of the dimension stands for the missing symbol"]
    jobs = []
    for cfg, rational in (("std", False), ("rat", True)):
        d = deps(cfg)
        for name, w in worlds(c, cfg, rational, c.pick(5, 30)):
            draw = Draw(c, "t" + name)
            dims = [{}] + draw.r.sample(w.named, min(len(w.named), 14)) + [texts.random_dims(draw.r, w.bases, rational) for _ in range(c.pick(14, 30))]
            targets = [(x, texts.one_of(w.mod, x, w.bases)) for x in dims]
            jobs.append((name, d, w, targets, source(w, draw, targets, ["f64", "f32"] + draw.r.sample(STORAGES[2:], 2) + draw.r.sample(["Sym", "i32", "i64", "u32"], 2), 6)))
    c.extra["systems"] = len(jobs)
    c.extra["dimensions"] = sum(len(j[3]) for j in jobs)

    def one(job):
        name, d, w, targets, text = job
        src = c.write(f"{name}.rs", text)
        comp = c.compile(src, d)
        if not comp.ok:
            return None
        return name, w, targets, src, c.run(comp.out, [c.seed, c.pick(10, 60)])[1]

    for res in pmap(one, jobs):
        if not res:
            continue
        name, w, targets, src, lines = res
        for line in lines:
            f = line.split("\t")
            if len(f) != 6:
                continue
            i, st, spec, key, number, text = f
            dims = targets[int(i)][0]
            kind = "none" if not dims else "named" if dims in w.named else "fractional" if any(x.denominator > 1 for x in dims.values()) else "composed"
            c.event(f"{name.split('_')[0]}/{st} {kind}{'' if spec == '0' else ' formatted'}", (name, i, key, spec))
            why = judge(w, dims, number, text)
            if why:
                c.violate(why, {"system": name, "dimension": {k: str(x) for k, x in dims.items()}, "storage": st, "format": debug(SPECS[int(spec)]),
                                "number": number, "text": text}, [src])
            elif c.evals % 4001 == 7:
                c.sample(f"{name} {st} {debug(SPECS[int(spec)])}: {text[1:]!r}")
    return 8000
