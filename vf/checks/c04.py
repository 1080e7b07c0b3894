"""C04: comparisons and math methods against the storage type."""
from common import deps, pmap
from gen import FLOATS, SI_DIMS, VECS, Draw, program

DIMLESS = ("log2 ln log10 exp exp2 ceil floor sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh "
           "exp_m1 ln_1p").split()
EXACT = ("ceil", "floor")
# reached through Deref: documented as "the dimensionless methods of S"
DEREF1 = "round trunc fract signum recip to_degrees to_radians".split()
DEREF2 = "powf atan2 hypot copysign rem_euclid div_euclid".split()
PREDICATES = {"is_positive": "a > 0.0", "is_positive_or_zero": "a >= 0.0", "is_negative": "a < 0.0",
              "is_negative_or_zero": "a <= 0.0", "is_nan": "a.is_nan()"}
OTHERS = ["Sym", "Own", "i32", "u64"]
CMP = ["==", "!=", "<", "<=", ">", ">="]


def q(var, S, D, a):
    return f"let {var} = {D}::<{S}>::new_unchecked({a});"


def source(S, draw, thorough, rat):
    parts = []
    cap = 4000 if thorough else 900
    ndim = 6 if thorough else 3
    body = f"let p = {S}::pool(r, n);\nlet p2 = {{ let mut v = p.clone(); v.extend({S}::pool(r, n)); v }};\n"
    b = body
    ops = CMP if S in FLOATS else CMP[:2]
    for op in ops:
        for lhs, rhs in [("x", "y"), ("&x", "y"), ("x", "&y"), ("&x", "&y"), ("&mut x.clone()", "&mut y.clone()")]:
            for _ in range(ndim):
                d = draw.dim()
                b += (f'm.pairs("{lhs[:-1]}Q<{S},{d}> {op} {rhs[:-1]}Q", &p, &p, {cap}, |a: {S}, b: {S}| a {op} b, '
                      f'|a: {S}, b: {S}| {{ {q("x", S, d, "a")} {q("y", S, d, "b")} {lhs} {op} {rhs} }});\n')
        b += (f'm.pairs("Q<{S}> {op} {S}", &p, &p, {cap}, |a: {S}, b: {S}| a {op} b, '
              f'|a: {S}, b: {S}| {{ {q("x", S, "Dimensionless", "a")} x {op} b }});\n')
        b += (f'm.pairs("{S} {op} Q<{S}>", &p, &p, {cap}, |a: {S}, b: {S}| a {op} b, '
              f'|a: {S}, b: {S}| {{ {q("y", S, "Dimensionless", "b")} a {op} y }});\n')
        if op == "<=":
            parts.append(b)
            b = body
    if S in FLOATS:
        d = draw.dim()
        b += (f'm.pairs("partial_cmp Q<{S},{d}>", &p, &p, {cap}, |a: {S}, b: {S}| a.partial_cmp(&b), '
              f'|a: {S}, b: {S}| {{ {q("x", S, d, "a")} {q("y", S, d, "b")} x.partial_cmp(&y) }});\n')
        for name in ("lt", "le", "gt", "ge", "eq", "ne"):
            d = draw.dim()
            b += (f'm.pairs("{name} Q<{S},{d}>", &p, &p, {cap}, |a: {S}, b: {S}| a.{name}(&b), '
                  f'|a: {S}, b: {S}| {{ {q("x", S, d, "a")} {q("y", S, d, "b")} x.{name}(&y) }});\n')
        b += (f'm.pairs("partial_cmp Q<{S}> {S}", &p, &p, {cap}, |a: {S}, b: {S}| a.partial_cmp(&b), '
              f'|a: {S}, b: {S}| {{ {q("x", S, "Dimensionless", "a")} x.partial_cmp(&b) }});\n')
        b += (f'm.pairs("partial_cmp {S} Q<{S}>", &p, &p, {cap}, |a: {S}, b: {S}| a.partial_cmp(&b), '
              f'|a: {S}, b: {S}| {{ {q("y", S, "Dimensionless", "b")} a.partial_cmp(&y) }});\n')
        # comparing with something that is not a number of that size must not go through another type
        d = draw.dim()
        b += (f'm.pairs("sort by Q<{S},{d}>", &p, &p, {cap}, |a: {S}, b: {S}| {{ let mut v = vec![a, b, a]; v.sort_by(|s, t| s.partial_cmp(t).unwrap()); v }}, '
              f'|a: {S}, b: {S}| {{ let mut v: Vec<{d}<{S}>> = vec![a, b, a].into_iter().map({d}::<{S}>::new_unchecked).collect(); v.sort_by(|s, t| s.partial_cmp(t).unwrap()); v.into_iter().map(|s| s.value_unchecked()).collect::<Vec<{S}>>() }});\n')
    parts.append(b)

    # abs on every storage type
    b = body
    for _ in range(ndim * 2):
        d = draw.dim()
        b += f'm.each("abs Q<{S},{d}>", &p2, |a: {S}| a.abs(), |a: {S}| {{ {q("x", S, d, "a")} let z: {d}<{S}> = x.abs(); z.value_unchecked() }});\n'
    if S not in FLOATS:
        parts.append(b)
        return program(parts)

    dims = [draw.dim() for _ in range(ndim)] + ["Dimensionless"]
    for d in dims:
        for name, want in PREDICATES.items():
            b += f'm.each("{name} Q<{S},{d}>", &p2, |a: {S}| {want}, |a: {S}| {{ {q("x", S, d, "a")} x.{name}() }});\n'
        b += f'm.form("zero Q<{S},{d}>"); m.same(&0u64, 0.0 as {S}, {d}::<{S}>::zero().value_unchecked());\n'
        b += f'm.each_close("squared Q<{S},{d}>", &p2, 2, |a: {S}| a.powi(2), |a: {S}| {{ {q("x", S, d, "a")} x.squared().value_unchecked() }});\n'
        b += f'm.each_close("cubed Q<{S},{d}>", &p2, 4, |a: {S}| a.powi(3), |a: {S}| {{ {q("x", S, d, "a")} x.cubed().value_unchecked() }});\n'
    parts.append(b)
    b = body
    for e in sorted(draw.r.sample(range(-9, 13), 14 if not thorough else 22)):
        d = draw.dim()
        b += f'm.each_close("powi {e} Q<{S},{d}>", &p2, 16, |a: {S}| a.powi({e}), |a: {S}| {{ {q("x", S, d, "a")} x.powi::<{e if e >= 0 else "{%d}" % e}>().value_unchecked() }});\n'
    for e in draw.r.sample([127, 128, -129, 255, 256, 257, -300, 1000, 32767, 32768, 65535, -65537, 70000, -100003, 2**24 + 1, 2**31 - 1, -2**31], 5 if not thorough else 17):
        d = draw.dim()
        b += (f'{{ let mut p4 = p2.clone(); p4.extend((-12..=12).map(|k| (1.0 + k as f64 / {abs(e)}f64) as {S})); p4.extend((-12..=12).map(|k| -(1.0 + k as f64 / {abs(e)}f64) as {S}));\n'
              f'm.each_close("powi {e} Q<{S},{d}>", &p4, {4 * abs(e) + 16 if abs(e) < 2**20 else 2**22}, |a: {S}| a.powi({e}), |a: {S}| {{ {q("x", S, d, "a")} x.powi::<{e if e >= 0 else "{%d}" % e}>().value_unchecked() }}); }}\n')
    roots = {"sqrt": ["Dimensionless", "Area", "SolidAngle", "SpecificEnergy"], "cbrt": ["Dimensionless", "Volume", "SolidAngle"]}
    for name, ds in roots.items():
        if rat:
            ds = ds + [draw.dim() for _ in range(4)]
        for d in ds:
            b += f'm.each_close("{name} Q<{S},{d}>", &p2, 2, |a: {S}| a.{name}(), |a: {S}| {{ {q("x", S, d, "a")} x.{name}().value_unchecked() }});\n'
    parts.append(b)
    b = body
    nz = f"let nz = |a: {S}| a + 0.0;"
    for name in ("min", "max"):
        for _ in range(ndim):
            d = draw.dim()
            b += (f'm.pairs("{name} Q<{S},{d}>", &p, &p, {cap}, |a: {S}, b: {S}| {{ {nz} nz(a.{name}(b)) }}, '
                  f'|a: {S}, b: {S}| {{ {nz} {q("x", S, d, "a")} {q("y", S, d, "b")} let z: {d}<{S}> = x.{name}(y); nz(z.value_unchecked()) }});\n')
        b += (f'm.pairs("{name} Q<{S}> with {S}", &p, &p, {cap}, |a: {S}, b: {S}| {{ {nz} nz(a.{name}(b)) }}, '
              f'|a: {S}, b: {S}| {{ {nz} {q("x", S, "Dimensionless", "a")} nz(x.{name}(b).value_unchecked()) }});\n')
    for d, conv in [(draw.dim(), True), (draw.dim(), True), ("Dimensionless", False)]:
        lo, hi = (f"{d}::<{S}>::new_unchecked(lo)", f"{d}::<{S}>::new_unchecked(hi)") if conv else ("lo", "hi")
        b += f'''m.form("clamp Q<{S},{d}>{'' if conv else ' with bare bounds'}");
        for (a, (lo, hi)) in pairing(&p2, &pairing(&p, &p, p.len() * p.len()), {cap} * 4) {{
            {nz}
            let want = attempt(|| nz(a.clamp(lo, hi)));
            let got = attempt(|| {{ {q("x", S, d, "a")} let z: {d}<{S}> = x.clamp({lo}, {hi}); nz(z.value_unchecked()) }});
            m.same(&(a, (lo, hi)), want, got);
        }}
        '''
    parts.append(b)
    b = body + f"let p3 = {{ let mut v = p2.clone(); v.extend((0..n * 4).map(|_| {{ let k = r.below(5) as i32 - 3; (({S}::moderate(r) as f64) * 10f64.powi(k)) as {S} }})); v.extend((-40..=40).map(|k| k as {S} / 8.0)); v }};\n"
    for name in DIMLESS:
        fn = "each" if name in EXACT else "each_close"
        tol = "" if name in EXACT else " 4,"
        b += f'm.{fn}("{name} Q<{S}>", &p3,{tol} |a: {S}| a.{name}(), |a: {S}| {{ {q("x", S, "Dimensionless", "a")} let z: Dimensionless<{S}> = x.{name}(); z.value_unchecked() }});\n'
    for name in DEREF1:
        b += f'm.each("deref {name} Q<{S}>", &p3, |a: {S}| a.{name}(), |a: {S}| {{ {q("x", S, "Dimensionless", "a")} x.{name}() }});\n'
    for name in DEREF2:
        b += (f'm.pairs("deref {name} Q<{S}>", &p, &p, {cap}, |a: {S}, b: {S}| a.{name}(b), '
              f'|a: {S}, b: {S}| {{ {q("x", S, "Dimensionless", "a")} x.{name}(b) }});\n')
    parts.append(b)
    return program(parts)


def other_source(S, draw, thorough):
    """Comparisons of quantities that store something else than floats or vectors."""
    cap = 3000 if thorough else 600
    pool = f"let p = {S}::pool(r, n);" if S != "Own" else 'let p: Vec<Own> = (0..40).map(|i| Own(format!("o{i}"))).collect();'
    body = f"{pool} let pf = f64::pool(r, n); let pg = f32::pool(r, n);\n"
    b = body
    own = S == "Own"
    for op in CMP:
        for lhs, rhs in [("x", "y"), ("&x", "&y")] + ([] if own else [("&x", "y"), ("x", "&y")]):
            d = draw.dim()
            b += (f'm.pairs("{lhs[:-1]}Q<{S},{d}> {op} {rhs[:-1]}Q", &p, &p, {cap}, |a: {S}, b: {S}| a {op} b, '
                  f'|a: {S}, b: {S}| {{ {q("x", S, d, "a")} {q("y", S, d, "b")} {lhs} {op} {rhs} }});\n')
        if S == "Sym":
            for f, pool in (("f64", "pf"), ("f32", "pg")):
                d = draw.dim()
                for A, B, pa, pb in ((S, f, "p", pool), (f, S, pool, "p")):
                    b += (f'm.pairs("Q<{A},{d}> {op} Q<{B}>", &{pa}, &{pb}, {cap}, |a: {A}, b: {B}| a {op} b, '
                          f'|a: {A}, b: {B}| {{ {q("x", A, d, "a")} {q("y", B, d, "b")} x {op} y }});\n')
                b += (f'm.pairs("Q<{S}> {op} {f}", &p, &{pool}, {cap}, |a: {S}, b: {f}| a {op} b, '
                      f'|a: {S}, b: {f}| {{ {q("x", S, "Dimensionless", "a")} x {op} b }});\n')
                b += (f'm.pairs("{f} {op} Q<{S}>", &{pool}, &p, {cap}, |a: {f}, b: {S}| a {op} b, '
                      f'|a: {f}, b: {S}| {{ {q("y", S, "Dimensionless", "b")} a {op} y }});\n')
    b += (f'm.pairs("partial_cmp Q<{S},Length>", &p, &p, {cap}, |a: {S}, b: {S}| a.partial_cmp(&b), '
          f'|a: {S}, b: {S}| {{ {q("x", S, "Length", "a")} {q("y", S, "Length", "b")} x.partial_cmp(&y) }});\n')
    return program([b])


def run(c):
    c.rule = ("one observation = one comparison or method applied to one input (pair, triple for clamp), compared with the same "
              "call on the stored values: exactly for comparisons, predicates, rounding, min, max, clamp, abs; up to 2-16 ulp "
              "for powers, roots and transcendental functions; a panic counts as a result; distinct = distinct (form, inputs)")
    c.assumptions = ["std's float methods are the reference", "min/max may return either zero"]
    jobs = []
    for cfg in ["std", "rat"]:
        d = deps(cfg)
        for S in [*FLOATS, *VECS]:
            if cfg == "rat" and S in VECS and not c.thorough:
                continue
            jobs.append((cfg, d, S))
        jobs += [(cfg, d, S) for S in OTHERS]

    def one(job):
        cfg, d, S = job
        src = c.write(f"{cfg}_{S}.rs", other_source(S, Draw(c, cfg + S), c.thorough) if S in OTHERS else source(S, Draw(c, cfg + S), c.thorough, cfg == "rat"))
        comp = c.compile(src, d)
        return (comp.out, f"{cfg}/") if comp.ok else None

    for r in pmap(one, jobs):
        if r:
            c.run(r[0], [c.seed, c.pick(60, 400)], label=r[1])
    return 100000
