"""C11: serialize, deserialize, compare bits; alone and inside structures, JSON and YAML."""
import texts
from common import deps, pmap
from gen import PRELUDE, STORAGES, VECS, Draw

HELP = """
use serde::{Serialize, Deserialize, de::DeserializeOwned};
use std::collections::BTreeMap;
#[derive(Serialize, Deserialize)]
struct Holder<T> { first: T, maybe: Option<T>, nothing: Option<T>, many: Vec<T>, pair: (T, u32), table: BTreeMap<String, T>, kind: Kind<T> }
#[derive(Serialize, Deserialize)]
enum Kind<T> { Plain(T), Named { q: T, n: i32 }, Unit }
#[derive(Serialize, Deserialize)]
#[serde(transparent)]
struct Wrapper<T>(T);
fn json<T: Serialize, U: DeserializeOwned>(t: &T) -> U { serde_json::from_str(&serde_json::to_string(t).unwrap()).unwrap() }
fn json_value<T: Serialize, U: DeserializeOwned>(t: &T) -> U { serde_json::from_value(serde_json::to_value(t).unwrap()).unwrap() }
fn json_bytes<T: Serialize, U: DeserializeOwned>(t: &T) -> U { serde_json::from_reader(&serde_json::to_vec_pretty(t).unwrap()[..]).unwrap() }
fn yaml<T: Serialize, U: DeserializeOwned>(t: &T) -> U { serde_yaml::from_str(&serde_yaml::to_string(t).unwrap()).unwrap() }
fn yaml_value<T: Serialize, U: DeserializeOwned>(t: &T) -> U { serde_yaml::from_value(serde_yaml::to_value(t).unwrap()).unwrap() }
fn trip<T: Serialize + DeserializeOwned + Copy, V: Raw + Copy>(m: &mut Mon, tag: &str, p: &[V], make: impl Fn(V) -> T, take: impl Fn(T) -> V) {
    m.each(&format!("{tag} json string"), p, |v| v, |v| take(json(&make(v))));
    m.each(&format!("{tag} json value"), p, |v| v, |v| take(json_value(&make(v))));
    m.each(&format!("{tag} json reader"), p, |v| v, |v| take(json_bytes(&make(v))));
    m.each(&format!("{tag} yaml string"), p, |v| v, |v| take(yaml(&make(v))));
    m.each(&format!("{tag} yaml value"), p, |v| v, |v| take(yaml_value(&make(v))));
    m.each(&format!("{tag} transparent"), p, |v| v, |v| { let w: Wrapper<T> = yaml(&Wrapper(make(v))); take(w.0) });
    let k = p.len();
    m.form(&format!("{tag} nested"));
    for i in 0..k {
        let (a, b, c) = (p[i], p[(i * 7 + 3) % k], p[(i * 5 + 1) % k]);
        let h = || Holder { first: make(a), maybe: Some(make(b)), nothing: None, many: vec![make(a), make(b), make(c)], pair: (make(c), 7),
            table: [("x".to_string(), make(a)), ("y".to_string(), make(c))].into_iter().collect(),
            kind: if i % 2 == 0 { Kind::Plain(make(b)) } else { Kind::Named { q: make(b), n: -3 } } };
        let back = |h: Holder<T>| -> Vec<V> {
            let mut v = vec![take(h.first), take(h.maybe.unwrap()), take(h.pair.0)];
            assert!(h.nothing.is_none() && h.pair.1 == 7);
            v.extend(h.many.into_iter().map(&take));
            v.push(take(h.table["x"])); v.push(take(h.table["y"]));
            v.push(match h.kind { Kind::Plain(q) => take(q), Kind::Named { q, n: -3 } => take(q), _ => panic!() });
            v
        };
        let want = vec![a, b, c, a, b, c, a, c, b];
        m.same(&a, Ok(want.clone()), attempt(|| back(json(&h()))));
        m.same(&a, Ok(want.clone()), attempt(|| back(yaml(&h()))));
        m.same(&a, Ok(want.clone()), attempt(|| back(json_value(&h()))));
    }
}
"""


def source(world, targets, storages):
    b = [PRELUDE, world.decl, HELP, world.helper()]
    main = "fn main() {\nlet mut m = Mon::new();\nlet n = size();\n"
    for i, (dims, expr) in enumerate(targets):
        tag = "none" if not dims else "fractional" if any(x.denominator > 1 for x in dims.values()) else "named" if dims in world.named else "composed"
        body = ""
        for S in storages[i]:
            body += (f"{{ let mut r = rng(\"{i}{S}\"); let mut p = {S}::pool(&mut r, n); for v in p.clone() {{ p.push({S}::random(&mut r)); }} "
                     f"for v in {S}::specials() {{ if r.below(3) == 0 {{ p.push(v); }} }}\n"
                     f"if p.len() > n * 2 + 24 {{ let k = r.below(24) as usize; p = p[k..].to_vec(); }}\n"
                     f"trip(m, \"{S} {tag}\", &p, |v| with({expr}, v), |q| q.value_unchecked()); }}\n")
        b.append(f"#[inline(never)] fn t{i}(m: &mut Mon, n: usize) {{\n{body}}}\n")
        main += f"t{i}(&mut m, n);\n"
    return "".join(b) + main + "m.done();\n}\n"


def run(c):
    c.rule = ("one observation = one value (or structure of nine values) of one dimension and storage type, serialized and deserialized through one "
              "carrier, compared bit for bit; distinct = distinct (form, value)")
    jobs = []
    for cfg, rational in (("std", False), ("rat", True)):
        d = deps(cfg)
        ws = [(f"{cfg}_si", texts.si_world())] + [(f"{cfg}_{k}", texts.random_world(Draw(c, f"{cfg}{k}").r, rational)) for k in range(c.pick(4, 25))]
        for name, w in ws:
            draw = Draw(c, "t" + name)
            bases = [b for b in w.bases if b in w.based]
            ok = [x for x in w.named if all(b in w.based for b in x)]
            dims = [{}] + draw.r.sample(ok, min(len(ok), c.pick(6, 12))) + [texts.random_dims(draw.r, bases, rational) for _ in range(c.pick(7, 24))]
            targets = [(x, texts.one_of(w.mod, x, w.bases)) for x in dims]
            storages = [draw.r.sample(["f32", "f64"], 1) + draw.r.sample(list(VECS), 1) if i else STORAGES for i in range(len(targets))]
            jobs.append((name, d, source(w, targets, storages)))
    c.extra["systems"] = len(jobs)

    def one(job):
        name, d, text = job
        src = c.write(f"{name}.rs", text)
        comp = c.compile(src, d)
        if comp.ok:
            c.run(comp.out, [c.seed, c.pick(8, 60)], label=name.split("_")[0] + "/")

    pmap(one, jobs)
    return 20000
