"""C03: every operator in every operand form against the same operation on the stored values, bit for bit."""
import re

from common import deps, pmap
from gen import SI_DIMS, VECS, Draw, program, scalar

OTHERS = ["Sym", "Own", "i32", "u64"]
REF = {"v": "{}", "r": "&{}", "m": "&mut {}"}


def quantity(var, S, D, mut=False):
    return f"let {'mut ' if mut else ''}{var} = {D}::<{S}>::new_unchecked({'a' if var == 'x' else 'b'});"


def value(expr):
    return f"({expr}).value_unchecked()"


def forms(S, draw, thorough):
    """Yields (name, lhs storage, rhs storage, want expression, got block)."""
    f = scalar(S)
    vec = S in VECS
    out = []

    def add(name, A, B, want, got):
        out.append((f"{name}", A, B, want, got))

    # storage pairs for which the storage types define the operation
    pm_pairs = [(S, S)] + ([(S, f), (f, S)] if vec else [])
    md_pairs = pm_pairs
    ops = {"+": pm_pairs, "-": pm_pairs, "*": md_pairs, "/": md_pairs}
    reps = 4 if thorough else 2
    for op, pairs in ops.items():
        for A, B in pairs:
            for ra in "vr":
                for rb in "vr":
                    for _ in range(reps):
                        d1 = draw.dim()
                        d2 = d1 if op in "+-" else draw.dim()
                        ea, eb = REF[ra].format("x"), REF[rb].format("y")
                        add(f"{ea[:-1]}Q<{A},{d1}> {op} {eb[:-1]}Q<{B},{d2}>", A, B, f"a {op} b",
                            f"{quantity('x', A, d1)} {quantity('y', B, d2)} {value(f'{ea} {op} {eb}')}")
    assign_pairs = [(S, S)] + ([(S, f)] if vec else [])
    for op in ("+=", "-=", "*=", "/="):
        for A, B in assign_pairs:
            for rb in "vr":
                for form in ("place", "through &mut"):
                    d1 = draw.dim()
                    d2 = d1 if op in ("+=", "-=") else "Dimensionless"
                    eb = REF[rb].format("y")
                    if form == "place":
                        stmt = f"x {op} {eb};"
                    else:
                        stmt = f"{{ let mut p = &mut x; p {op} {eb}; }}"
                    add(f"{form}: Q<{A},{d1}> {op} {eb[:-1]}Q<{B},{d2}>", A, B, f"{{ let mut t = a; t {op} b; t }}",
                        f"{quantity('x', A, d1, True)} {quantity('y', B, d2)} {stmt} x.value_unchecked()")
    # dimensionless and bare storage
    for op in "+-":
        for ra in "vr":
            for rb in "vr":
                ea, eb = REF[ra].format("x"), REF[rb].format("b")
                add(f"{ea[:-1]}Q<{S}> {op} {eb[:-1]}{S}", S, S, f"a {op} b",
                    f"{quantity('x', S, 'Dimensionless')} {value(f'{ea} {op} {eb}')}")
                ea, eb = REF[ra].format("a"), REF[rb].format("y")
                add(f"{ea[:-1]}{S} {op} {eb[:-1]}Q<{S}>", S, S, f"a {op} b",
                    f"{quantity('y', S, 'Dimensionless')} {value(f'{ea} {op} {eb}')}")
    for op in ("+=", "-="):
        for rb in "vr":
            eb = REF[rb].format("b")
            add(f"Q<{S}> {op} {eb[:-1]}{S}", S, S, f"{{ let mut t = a; t {op} b; t }}",
                f"{quantity('x', S, 'Dimensionless', True)} x {op} {eb}; x.value_unchecked()")
            add(f"&mut Q<{S}> {op} {eb[:-1]}{S}", S, S, f"{{ let mut t = a; t {op} b; t }}",
                f"{quantity('x', S, 'Dimensionless', True)} {{ let mut p = &mut x; p {op} {eb}; }} x.value_unchecked()")
    for op in ("+=", "-=", "*=", "/="):
        for rb in "vr":
            eb = REF[rb].format("y")
            add(f"{S} {op} {eb[:-1]}Q<{S}>", S, S, f"{{ let mut t = a; t {op} b; t }}",
                f"{quantity('y', S, 'Dimensionless')} let mut t = a; t {op} {eb}; t")
    # any dimension and bare storage
    for op in "*/":
        for A, B in md_pairs:
            for ra in "vr":
                for rb in "vr":
                    for _ in range(reps):
                        d = draw.dim()
                        ea, eb = REF[ra].format("x"), REF[rb].format("b")
                        add(f"{ea[:-1]}Q<{A},{d}> {op} {eb[:-1]}{B}", A, B, f"a {op} b",
                            f"{quantity('x', A, d)} let z: {d}<{S}> = {ea} {op} {eb}; z.value_unchecked()")
                        ea, eb = REF[ra].format("a"), REF[rb].format("y")
                        add(f"{ea[:-1]}{A} {op} {eb[:-1]}Q<{B},{d}>", A, B, f"a {op} b",
                            f"{quantity('y', B, d)} {value(f'{ea} {op} {eb}')}")
    for op in ("*=", "/="):
        for rb in "vr":
            for A, B in [(S, S)]:
                d = draw.dim()
                eb = REF[rb].format("b")
                add(f"Q<{A},{d}> {op} {eb[:-1]}{B}", A, B, f"{{ let mut t = a; t {op} b; t }}",
                    f"{quantity('x', A, d, True)} x {op} {eb}; x.value_unchecked()")
    return out


UNARY = [
    ("-Q", "-a", "(-x).value_unchecked()", True),
    ("value_unchecked", "a", "x.value_unchecked()", True),
    ("value_unchecked_ref", "a", "*x.value_unchecked_ref()", True),
    ("stored bytes", "a", "unsafe { std::ptr::read(&x as *const _ as *const S_) }", True),
    ("copy", "a", "let y = x; let z = x; z.value_unchecked()", True),
    ("clone", "a", "Clone::clone(&x).value_unchecked()", True),
    ("value", "a", "x.value()", False),
    ("value_ref", "a", "*x.value_ref()", False),
    ("deref", "a", "*x", False),
    ("Deref::deref", "a", "*std::ops::Deref::deref(&x)", False),
    ("from", "a", "Dimensionless::<S_>::from(a).value_unchecked()", False),
    ("into", "a", "let y: Dimensionless<S_> = a.into(); y.value_unchecked()", False),
    ("from, value", "a", "Dimensionless::<S_>::from(a).value()", False),
    ("const new_unchecked", "a", "const fn mk(s: S_) -> Length<S_> { Length::<S_>::new_unchecked(s) } mk(a).value_unchecked()", False),
]


def other_forms(S, draw, reps):
    """The operators that exist for any storage type with the operation: (name, lhs storage, rhs storage, want, got)."""
    out = []
    copy = S != "Own"
    refs = "vr" if copy else "v"

    def add(name, A, B, want, got):
        out.append((name, A, B, want, got))

    mixed = {"Sym": ["f32", "f64"], "Own": ["f64"]}.get(S, [])
    pairs = [(S, S)] + [(S, f) for f in mixed] + [(f, S) for f in mixed]
    t = "{ let mut t = a; t %s b; t }"
    for op in "+-*/":
        for A, B in pairs:
            for ra in refs:
                for rb in refs:
                    for _ in range(reps):
                        d1 = draw.dim()
                        d2 = d1 if op in "+-" else draw.dim()
                        ea, eb = REF[ra].format("x"), REF[rb].format("y")
                        add(f"{ea[:-1]}Q<{A},{d1}> {op} {eb[:-1]}Q<{B},{d2}>", A, B, f"a {op} b",
                            f"{quantity('x', A, d1)} {quantity('y', B, d2)} {value(f'{ea} {op} {eb}')}")
    for op in ("+=", "-=", "*=", "/="):
        for A, B in [(S, S)] + [(S, f) for f in mixed if copy]:
            for rb in refs:
                for place in (True, False) if copy else (True,):
                    d1 = draw.dim()
                    d2 = d1 if op in ("+=", "-=") else "Dimensionless"
                    eb = REF[rb].format("y")
                    stmt = f"x {op} {eb};" if place else f"{{ let mut p = &mut x; p {op} {eb}; }}"
                    add(f"{'' if place else '&mut '}Q<{A},{d1}> {op} {eb[:-1]}Q<{B},{d2}>", A, B, t % op,
                        f"{quantity('x', A, d1, True)} {quantity('y', B, d2)} {stmt} x.value_unchecked()")
    for op in "+-":
        for ra in refs:
            for rb in refs:
                ea, eb = REF[ra].format("x"), REF[rb].format("b")
                add(f"{ea[:-1]}Q<{S}> {op} {eb[:-1]}{S}", S, S, f"a {op} b", f"{quantity('x', S, 'Dimensionless')} {value(f'{ea} {op} {eb}')}")
    for op in ("+=", "-="):
        for rb in refs:
            eb = REF[rb].format("b")
            add(f"Q<{S}> {op} {eb[:-1]}{S}", S, S, t % op, f"{quantity('x', S, 'Dimensionless', True)} x {op} {eb}; x.value_unchecked()")
            if copy:
                add(f"&mut Q<{S}> {op} {eb[:-1]}{S}", S, S, t % op, f"{quantity('x', S, 'Dimensionless', True)} {{ let mut p = &mut x; p {op} {eb}; }} x.value_unchecked()")
    for op in "*/":
        for f in mixed:
            for ra in refs:
                for rb in "vr":
                    d = draw.dim()
                    ea, eb = REF[ra].format("x"), REF[rb].format("b")
                    add(f"{ea[:-1]}Q<{S},{d}> {op} {eb[:-1]}{f}", S, f, f"a {op} b",
                        f"{quantity('x', S, d)} let z: {d}<{S}> = {ea} {op} {eb}; z.value_unchecked()")
                    ea, eb = REF[rb].format("a"), REF[ra].format("y")
                    add(f"{ea[:-1]}{f} {op} {eb[:-1]}Q<{S},{d}>", f, S, f"a {op} b", f"{quantity('y', S, d)} {value(f'{ea} {op} {eb}')}")
    return out


def other_source(S, draw, thorough):
    """The same for storage types that are neither floats nor vectors: integers, and types recording what happens to them."""
    parts = []
    pool = lambda A: f"let p = {A}::pool(r, n);" if A != "Own" else 'let p: Vec<Own> = (0..12).map(|i| Own(format!("o{i}"))).collect();'
    by = {}
    for name, A, B, want, got in other_forms(S, draw, 3 if thorough else 1):
        by.setdefault((A, B), []).append((name, want, got))
    for (A, B), fs in by.items():
        for i in range(0, len(fs), 24):
            body = f"let pa = {{ {pool(A)} p }}; let pb = {{ {pool(B)} p }};\n"
            for name, want, got in fs[i:i + 24]:
                body += f'm.pairs("{name}", &pa, &pb, {2500 if thorough else 400}, |a: {A}, b: {B}| {want}, |a: {A}, b: {B}| {{ {got} }});\n'
            parts.append(body)
    body = f"let pa = {{ {pool(S)} p }};\n"
    for name, want, got, anyd in UNARY:
        if (name == "-Q" and S[0] == "u") or (S == "Own" and name in ("value_unchecked_ref", "stored bytes", "copy", "value_ref", "deref", "Deref::deref")):
            continue
        for _ in range(2 if anyd else 1):
            d = draw.dim() if anyd else "Dimensionless"
            body += f'm.each("{name} Q<{S},{d}>", &pa, |a: {S}| {want}, |a: {S}| {{ {quantity("x", S, d) if re.search(r"\bx\b", got) else ""} {got.replace("S_", S)} }});\n'
    d = draw.dim()
    if S == "Own":
        body += f"""m.each("borrowed Q<Own>", &pa, |a: Own| (a.clone(), a), |a: Own| {{ {quantity("x", S, "Dimensionless")} let k = x.value_ref().clone(); let l = (*x).clone(); assert!(k.same(&l)); let c = x.value_unchecked_ref().clone(); assert!(k.same(&c)); (k, x.value()) }});\n"""
    body += f"""
    m.form("sum Q<{S},{d}>");
    for k in 0..n + 3 {{
        let len = match k {{ 0 => 0, 1 => 1, 2 => 2, _ => r.below(7) as usize }};
        let v: Vec<{S}> = (0..len).map(|_| pa[r.below(pa.len() as u64) as usize].clone()).collect();
        let q: Vec<{d}<{S}>> = v.iter().cloned().map({d}::<{S}>::new_unchecked).collect();
        let want = attempt(|| {{ let mut t = {S}::default(); for a in v.iter().cloned() {{ t += a; }} t }});
        let got = attempt(|| {{ let s: {d}<{S}> = q.into_iter().sum(); s.value_unchecked() }});
        m.same(&v, want, got);
    }}
    m.form("default Q<{S},{d}>");
    m.same(&0u64, <{S} as Default>::default(), <{d}<{S}> as Default>::default().value_unchecked());
    """
    parts.append(body)
    return program(parts)


def source(S, draw, thorough):
    parts = []
    cur = []
    cap = 2500 if thorough else 560
    head = lambda A, B: f"let pa = {A}::pool(r, n); let pb = {B}::pool(r, n);\n"
    by = {}
    for name, A, B, want, got in forms(S, draw, thorough):
        by.setdefault((A, B), []).append((name, want, got))
    for (A, B), fs in by.items():
        for i in range(0, len(fs), 24):
            body = head(A, B)
            for name, want, got in fs[i:i + 24]:
                body += f'm.pairs("{name}", &pa, &pb, {cap}, |a: {A}, b: {B}| {want}, |a: {A}, b: {B}| {{ {got} }});\n'
            parts.append(body)
    body = f"let pa = {S}::pool(r, n * 3);\n"
    for name, want, got, anyd in UNARY:
        for _ in range(3 if anyd else 1):
            d = draw.dim() if anyd else "Dimensionless"
            body += f'm.each("{name} Q<{S},{d}>", &pa, |a: {S}| {want}, |a: {S}| {{ {quantity("x", S, d)} {got.replace("S_", S)} }});\n'
    # sums: a left fold, up to the sign of a zero result (the standard library itself starts from either zero)
    zero = "a + z" if S not in VECS else f"a + {S}::ZERO"
    d = draw.dim()
    norm = "let z = 0.0; " if S not in VECS else ""
    body += f'''
    m.form("sum Q<{S},{d}>");
    for k in 0..n + 3 {{
        let len = match k {{ 0 => 0, 1 => 1, 2 => 2, _ => r.below(9) as usize }};
        let v: Vec<{S}> = (0..len).map(|_| if k % 2 == 0 {{ {S}::random(r) }} else {{ {S}::moderate(r) }}).collect();
        let q: Vec<{d}<{S}>> = v.iter().map(|&a| {d}::<{S}>::new_unchecked(a)).collect();
        let nz = |a: {S}| {{ {norm}{zero} }};
        let want = nz(v.iter().fold({S}::default(), |s, &a| s + a));
        let by_value: {d}<{S}> = q.clone().into_iter().sum();
        let copied: {d}<{S}> = q.iter().copied().sum::<{d}<{S}>>();
        m.same(&v, want, nz(by_value.value_unchecked()));
        m.same(&v, want, nz(copied.value_unchecked()));
    }}
    m.form("default Q<{S},{d}>");
    m.same(&0u64, <{S} as Default>::default(), <{d}<{S}> as Default>::default().value_unchecked());
    '''
    parts.append(body)
    return program(parts)


def run(c):
    c.rule = ("one observation = one operator form applied to one pair of stored values, compared bit for bit (NaN = NaN) "
              "with the operation of the storage type; distinct = distinct (form, inputs); inputs are 23 special values "
              "(zeros, subnormals, extremes, infinities, NaN) combined with each other and with random values; the forms that exist for "
              "any storage type are also observed on integers and on two symbolic storage types, which record the operations performed "
              "on them with their operands and order")
    c.assumptions = ["the storage types' own operators (std, glam) are the reference",
                     "the sign of a zero that results from sum() is not compared: std itself has changed its starting value"]
    cfgs = ["std", "rat"]
    jobs = []
    for cfg in cfgs:
        d = deps(cfg)
        for S in ["f32", "f64", *VECS, *OTHERS]:
            if cfg == "rat" and S in OTHERS[1:] and not c.thorough:
                continue
            jobs.append((cfg, d, S))

    def one(job):
        cfg, d, S = job
        src = c.write(f"{cfg}_{S}.rs", (other_source if S in OTHERS else source)(S, Draw(c, cfg + S), c.thorough))
        comp = c.compile(src, d)
        if comp.ok:
            return comp.out, f"{cfg}/"
        return None

    for r in pmap(one, jobs):
        if r:
            c.run(r[0], [c.seed, c.pick(40, 400)], label=r[1])
    return 100000
