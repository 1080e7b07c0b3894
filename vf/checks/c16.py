"""C16: vector quantity methods against glam on the stored vectors, component by component."""
import texts
from common import deps, pmap
from gen import SI, SI_DIMS, VECS, Draw, program

AX = "xyz"

# (dimension, its square), (lhs, rhs, dimension of the dot product): typed results, so that a wrong dimension does not compile
SQUARES = [("Length", "Area"), ("Velocity", "SpecificEnergy"), ("Dimensionless", "Dimensionless")]
DOTS = [("Force", "Length", "Energy"), ("Length", "Length", "Area"), ("Force", "Velocity", "Power"), ("Dimensionless", "Mass", "Mass"),
        ("Velocity", "Time", "Length"), ("Frequency", "Time", "Dimensionless"), ("Dimensionless", "Dimensionless", "Dimensionless"), ("Pressure", "Area", "Force")]


def part(S, d, sq, typed, cap):
    """All methods for one storage type and dimension; `d` is the alias to be applied to a storage type."""
    f, n = VECS[S]
    ax = AX[:n]
    v = f"{d}::<{S}>::new_unchecked"
    s = f"{d}::<{f}>::new_unchecked"
    L = f"{S},{d}".replace("sys::dimensions::", "")
    b = f"let p = {S}::pool(r, n); let s = {f}::pool(r, n);\n"
    # pairs that differ little: distances close to each other
    b += f"let mut near = pairing(&p, &p, {cap}); for _ in 0..n {{ let a = {S}::moderate(r); near.push((a, a + {S}::moderate(r) * (1e-3 as {f}))); near.push((a, a)); near.push((a, -a)); }}\n"
    # construction
    sel = ", ".join(f"t.{i}" for i in range(n))
    b += f'm.form("new Q<{L}>"); for k in 0..p.len() + n {{ let t = ({", ".join(f"s[(k * {7 * i + 3} + {5 * i}) % s.len()]" for i in range(n))}); '
    b += f'let want = vec![{sel}]; let q: {d}<{S}> = <{d}<{S}>>::new({", ".join(f"{s}(t.{i})" for i in range(n))}); m.same(&want, want.clone(), q.value_unchecked().to_array().to_vec()); }}\n'
    for i, a in enumerate(ax):
        up = a.upper()
        b += f'm.form("new_{a} Q<{L}>"); for &x in &s {{ let q: {d}<{S}> = <{d}<{S}>>::new_{a}({s}(x)); let got = q.value_unchecked().to_array(); m.same(&x, x, got[{i}]); '
        b += f'if x.is_finite() {{ for j in 0..{n} {{ if j != {i} {{ m.same(&(x, j), 0.0 as {f}, got[j].abs()); }} }} }} }}\n'
        b += f'm.each("{a}() Q<{L}>", &p, |v: {S}| v.{a}, |v: {S}| {{ let q = {v}(v); let c: {d}<{f}> = q.{a}(); c.value_unchecked() }});\n'
        b += f'm.pairs("set_{a} Q<{L}>", &p, &s, {cap}, |v: {S}, c: {f}| {{ let mut v = v; v.{a} = c; v }}, |v: {S}, c: {f}| {{ let mut q = {v}(v); q.set_{a}({s}(c)); q.value_unchecked() }});\n'
    # a history of mutations, observed after every step
    arms = " ".join(f"{i} => {{ q.set_{a}({s}(c)); w.{a} = c; }}" for i, a in enumerate(ax))
    read = ", ".join(f"q.{a}().value_unchecked()" for a in ax)
    b += f'm.form("history of set_* Q<{L}>"); for k in 0..n {{ let mut w = p[k % p.len()]; let mut q = {v}(w); for step in 0..12u64 {{ let which = r.below({n + 2}); let c = s[r.below(s.len() as u64) as usize]; match which {{ {arms} '
    b += f'{n} => {{ q += {v}({S}::splat(c)); w += {S}::splat(c); }} _ => {{ q = q.abs(); w = w.abs(); }} }} m.same(&((k as u64, step), (which, vec![c])), w.to_array().to_vec(), vec![{read}]); }} }}\n'
    b += f'm.form("zero Q<{L}>"); {{ let z: {d}<{S}> = <{d}<{S}>>::zero(); m.same(&0u64, {S}::ZERO, z.value_unchecked()); }}\n'
    b += f'm.each("abs Q<{L}>", &p, |v: {S}| v.abs(), |v: {S}| {{ let q: {d}<{S}> = {v}(v).abs(); q.value_unchecked() }});\n'
    b += f"let pos = |v: {S}| v + {S}::ZERO;\n"
    for name in ("min", "max"):
        b += f'm.form("{name} Q<{L}>"); for &(a, b) in &near {{ let q: {d}<{S}> = {v}(a).{name}({v}(b)); m.same(&(a, b), pos(a.{name}(b)), pos(q.value_unchecked())); }}\n'
    b += f'm.each_close("length Q<{L}>", &p, 2, |v: {S}| v.length(), |v: {S}| {{ let q: {d}<{f}> = {v}(v).length(); q.value_unchecked() }});\n'
    b += f'm.form("distance Q<{L}>"); for &(a, b) in &near {{ let q: {d}<{f}> = {v}(a).distance(&{v}(b)); m.close(&(a, b), a.distance(b), q.value_unchecked(), 2); }}\n'
    sqt = f": {sq}<{f}>" if sq else ""
    b += f'm.form("distance_squared Q<{L}>"); for &(a, b) in &near {{ let q{sqt} = {v}(a).distance_squared(&{v}(b)); m.close(&(a, b), a.distance_squared(b), q.value_unchecked(), 2); }}\n'
    none = f": Dimensionless<{S}>" if typed else ""
    b += f'm.each_close("normalize Q<{L}>", &p, 2, |v: {S}| v.normalize(), |v: {S}| {{ let q{none} = {v}(v).normalize(); q.value_unchecked() }});\n'
    return b


def dots(S, triples, cap):
    f, n = VECS[S]
    b = f"let p = {S}::pool(r, n);\n"
    # products that cancel, where the order of the additions decides
    perm = ["0, 1, 2", "0, 2, 1", "2, 0, 1"] if n == 3 else ["0, 1"]
    b += f"let mut cancel = Vec::new(); for k in 0..n {{ let (m, f, e) = ({f}::moderate(r), {f}::moderate(r), {f}::moderate(r)); let big = m * [1.0, 1e3, 1e9, 1e15][k % 4] as {f}; "
    b += f"let (s, t) = ([big, -big, e], [f, f, {f}::moderate(r)]); "
    for o in perm:
        ix = o.split(", ")
        b += f"cancel.push(({S}::new({', '.join(f's[{i}]' for i in ix)}), {S}::new({', '.join(f't[{i}]' for i in ix)}))); "
    b += "}\n"
    for a, x, z in triples:
        zt = f": {z}<{f}>" if z else ""
        b += (f'm.pairs_close("dot Q<{S},{a.split("::")[-1]}> Q<{S},{x.split("::")[-1]}>", &p, &p, {cap}, 2, |a: {S}, b: {S}| a.dot(b), '
              f'|a: {S}, b: {S}| {{ let q{zt} = {a}::<{S}>::new_unchecked(a).dot({x}::<{S}>::new_unchecked(b)); q.value_unchecked() }});\n')
        b += (f'm.form("dot, cancelling, Q<{S},{a.split("::")[-1]}> Q<{S},{x.split("::")[-1]}>"); for &(a, b) in &cancel {{ let q{zt} = {a}::<{S}>::new_unchecked(a).dot({x}::<{S}>::new_unchecked(b)); '
              f'm.close(&(a, b), a.dot(b), q.value_unchecked(), 2); }}\n')
    return b


def run(c):
    c.rule = ("one observation = one method, setter or accessor applied to one vector (pair, or step of a history), compared component by component with glam "
              "on the stored vector: bit for bit, up to 2 ulp for length, distance, dot and normalisation; distinct = distinct (form, inputs)")
    c.assumptions = ["glam is the reference; min/max may return either zero; the axis constructors are asked for exact zeros beside the axis for finite inputs only"]
    cap = c.pick(700, 5000)
    jobs = []
    for cfg in ("std", "rat"):
        d = deps(cfg)
        for S in VECS:
            draw = Draw(c, cfg + S)
            parts = []
            for dim, sq in SQUARES:
                parts.append(part(S, dim, sq, True, cap))
            for dim in draw.r.sample([x for x in SI_DIMS if x not in ("Length", "Velocity", "Dimensionless")], c.pick(2, 8)):
                parts.append(part(S, dim, None, True, cap))
            parts.append(dots(S, draw.r.sample(DOTS, c.pick(4, 8)) + [(draw.dim(), draw.dim(), None) for _ in range(c.pick(3, 10))], cap))
            w = texts.random_world(draw.r, cfg == "rat")
            own = [f"sys::dimensions::{b}" for b in w.bases]
            parts.append(part(S, draw.r.choice(own), None, False, cap))
            parts.append(dots(S, [(draw.r.choice(own), draw.r.choice(own), None) for _ in range(2)], cap))
            jobs.append((cfg, d, S, program(parts, SI + w.decl)))

    def one(job):
        cfg, d, S, text = job
        src = c.write(f"{cfg}_{S}.rs", text)
        comp = c.compile(src, d, opt=c.pick(None, 0))
        if comp.ok:
            c.run(comp.out, [c.seed, c.pick(150, 1500)], label=f"{cfg}/", timeout=600)

    pmap(one, jobs)
    if c.thorough:
        # the optimised build reads and writes components differently
        def two(job):
            cfg, d, S, text = job
            comp = c.compile(c.write(f"{cfg}_{S}_o.rs", text), d, opt=3)
            if comp.ok:
                c.run(comp.out, [c.seed + 1, 1500], label=f"{cfg}-O3/", timeout=600)
        pmap(two, jobs)
    return 100000
