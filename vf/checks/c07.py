"""C07: random unit systems, every name's dimension and factor against exact evaluation of its definition."""
from decimal import Decimal as D
from fractions import Fraction as F

import systems
from common import deps, pmap
from gen import PRELUDE, Draw, program

HELP = "use std::any::TypeId;\nfn ty<T: 'static>(_: &T) -> TypeId { TypeId::of::<T>() }\n"


def chunks(x, n):
    return [x[i:i + n] for i in range(0, len(x), n)]


def probes(s):
    # (rustc takes minutes over products of dozens of bases)
    return [x for x in systems.probes(s, "sys") if x.count(".powi::<") <= 12]


def source(draw, rational, shape):
    s = systems.random_system(draw.r, rational, **shape)
    if draw.r.random() < 0.7:
        s = systems.permuted(s, draw.r)
    lines = probes(s)
    if len(lines) > 240:
        lines = draw.r.sample(lines, 240)
    return s, program(["\n".join(p) for p in chunks(lines, 40)], PRELUDE + systems.module("sys", s), HELP)


SHAPES = [
    {},
    {"nbase": 1, "nunits": 14},
    {"nbase": 3, "nunits": 26, "prefixes": 0.05},
    {"nbase": 9, "nunits": 10, "prefixes": 0.1},
    {"nbase": 5, "nunits": 10, "baseless": 0.5},
    {"nbase": 14, "nunits": 6, "prefixes": 0.0},
    {"prefixes": 0.0, "nunits": 30, "symbols": 0.0},
    {"prefixes": 0.0, "nunits": 45, "symbols": 0.0, "chain": True},
    {"nbase": 21, "nunits": 5, "prefixes": 0.0},
]


def huge(draw):
    """Powers with exponents beyond 32 bits, of numbers so close to one that the result is ordinary."""
    s, lines = systems.System(), []
    s.items = [systems.Item("dimension", "Length"), systems.Item("unit", "meter", base="Length", symbol="m")]
    for k in range(24):
        e = draw.r.choice([2**31 - 1, 2**31, 2**31 + 1, 2**32, 2**32 + 1, 2**32 + 2, draw.r.randrange(2**31, 2**40)]) * draw.r.choice([1, -1])
        x = D(1 + draw.r.uniform(-20, 20) / e)
        want = x ** e
        name = f"u{k}"
        expr = ("pow", ("num", str(x)), F(e), str(e), "^")
        if k % 2:
            expr = ("bin", ("name", "meter"), "*/"[k // 2 % 2], expr, " ")
            want = want if k // 2 % 2 == 0 else 1 / want
        s.items.append(systems.Item("unit", name, expr))
        one = f"sys::units::{name}.new(1.0f64)"
        lines.append(f'm.form("factor of huge power"); m.close(&"{name}", {systems.rust_float(want)}, {one}.value_unchecked(), {8 * abs(e)});')
    return s, program(["\n".join(p) for p in chunks(lines, 40)], PRELUDE + systems.module("sys", s), HELP)


def large(draw, rational, nbase, nunits, depth, backwards):
    """Many base dimensions, and chains of definitions longer than anybody writes, in the least convenient order."""
    r = draw.r
    s = systems.random_system(r, rational, nbase=nbase, nunits=nunits, prefixes=0.0, symbols=0.0, types=False)
    last = {"dimension": next(i.name for i in s.items if i.kind == "dimension"), "unit": next(i.name for i in s.items if i.base)}
    bases = s.base_dims()
    for k in range(depth):
        for kind in ("unit", "dimension"):
            e = ("name", last[kind])
            if kind == "unit":
                e = ("bin", e, r.choice("*/"), ("num", r.choice(systems.NEAR_ONE)), " ")
            else:
                # to and fro, so that exponents stay small
                e = ("bin", e, "*/"[k % 2], ("name", bases[k // 2 % len(bases)]), " ")
            last[kind] = f"Chain{k}" if kind == "dimension" else f"chain{k}"
            s.items.append(systems.Item("constant" if kind == "unit" and k % 3 == 2 else kind, last[kind], e))
    n = len(s.items) + 2
    s.order = list(range(n))[::-1] if backwards else r.sample(range(n), n)
    lines = probes(s)
    lines = lines[:60] + r.sample(lines, min(len(lines), 150)) + lines[-60:]
    return s, program(["\n".join(p) for p in chunks(lines, 40)], PRELUDE + systems.module("sys", s), HELP)


def run(c):
    c.rule = ("one observation = the dimension (type identity with a product of base dimensions) or the factor of one name of one random unit "
              "system, compared with the exact value of its defining expression; distinct = distinct (kind of fact, name)")
    c.assumptions = ["factors are compared up to a bound on the rounding of the defining chain (2 x accumulated ulp + 4)"]
    jobs = []
    plan = [("min", False, c.pick(18, 140)), ("minrat", True, c.pick(18, 140)), ("full", False, c.pick(3, 12)), ("fullrat", True, c.pick(3, 12))]
    for cfg, rational, n in plan:
        d = deps(cfg)
        for k in range(n):
            draw = Draw(c, f"{cfg}{k}")
            s, text = source(draw, rational, SHAPES[k % len(SHAPES)])
            jobs.append((f"{cfg}_{k}", d, s, text))
        s, text = huge(Draw(c, f"huge {cfg}"))
        jobs.append((f"{cfg}_huge", d, s, text))
        for k, (nb, nu, depth, backwards) in enumerate([(3, 20, 280, True), (4, 40, 140, False), (40, 20, 10, False)]):
            if k == 2 and cfg.startswith("full"):
                continue
            s, text = large(Draw(c, f"large {cfg} {k}"), rational, nb, nu, depth, backwards)
            jobs.append((f"{cfg}_large{k}", d, s, text))
    c.extra["systems"] = len(jobs)
    c.extra["definitions"] = sum(len(j[2].items) for j in jobs)
    c.extra["most_base_dimensions"] = max(len(j[2].base_dims()) for j in jobs)

    def one(job):
        name, d, s, text = job
        src = c.write(f"{name}.rs", text)
        comp = c.compile(src, d)
        return (comp.out, name.split("_")[0], s) if comp.ok else None

    for r in pmap(one, jobs):
        if r:
            c.run(r[0], [c.seed], label=f"{r[1]}/")
            c.sample(r[2].text("").replace("\n", " ")[:300])
    return 1500
