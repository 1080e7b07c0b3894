"""C15: random quantities against sampling the stored bounds, with two copies of one generator that record every draw."""
import texts
from common import deps, pmap
from gen import FLOATS, SI, SI_DIMS, Draw, program

HELP = r"""
use rand::distributions::uniform::{SampleUniform, UniformFloat, UniformSampler};
use rand::distributions::{Distribution, Uniform};
use rand::rngs::mock::StepRng;
use rand::rngs::StdRng;
use rand::{Rng as _, RngCore, SeedableRng};
/// A generator that records what is asked of it.
#[derive(Clone)]
struct Rec<R> { inner: R, log: u64, calls: u64 }
impl<R: RngCore> Rec<R> { fn note(&mut self, kind: u64, v: u64) { self.calls += 1; self.log = mix(mix(self.log, kind), v); } }
impl<R: RngCore> RngCore for Rec<R> {
    fn next_u32(&mut self) -> u32 { let v = self.inner.next_u32(); self.note(1, v as u64); v }
    fn next_u64(&mut self) -> u64 { let v = self.inner.next_u64(); self.note(2, v); v }
    fn fill_bytes(&mut self, d: &mut [u8]) { self.inner.fill_bytes(d); let n = d.len() as u64; self.note(3, n) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
/// Long runs of zeros and ones: samples at the very ends of a range.
#[derive(Clone)]
struct Ends(Rng);
impl RngCore for Ends {
    fn next_u32(&mut self) -> u32 { match self.0.below(5) { 0 => 0, 1 => u32::MAX, 2 => u32::MAX << self.0.below(20), 3 => u32::MAX >> self.0.below(20), _ => self.0.u64() as u32 } }
    fn next_u64(&mut self) -> u64 { match self.0.below(5) { 0 => 0, 1 => u64::MAX, 2 => u64::MAX << self.0.below(40), 3 => u64::MAX >> self.0.below(40), _ => self.0.u64() } }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u32() as u8; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
#[derive(Clone)]
enum Any { Std(StdRng), Step(StepRng), Ends(Ends) }
impl RngCore for Any {
    fn next_u32(&mut self) -> u32 { match self { Any::Std(r) => r.next_u32(), Any::Step(r) => r.next_u32(), Any::Ends(r) => r.next_u32() } }
    fn next_u64(&mut self) -> u64 { match self { Any::Std(r) => r.next_u64(), Any::Step(r) => r.next_u64(), Any::Ends(r) => r.next_u64() } }
    fn fill_bytes(&mut self, d: &mut [u8]) { match self { Any::Std(r) => r.fill_bytes(d), Any::Step(r) => r.fill_bytes(d), Any::Ends(r) => r.fill_bytes(d) } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
fn generator(r: &mut Rng) -> Rec<Any> {
    let inner = match r.below(8) {
        0 => Any::Step(StepRng::new(0, 0)),
        1 => Any::Step(StepRng::new(u64::MAX, 0)),
        2 => Any::Step(StepRng::new(r.u64(), r.u64() | 1)),
        3 | 4 => Any::Ends(Ends(Rng::new(r.u64()))),
        _ => Any::Std(StdRng::seed_from_u64(r.u64())),
    };
    Rec { inner, log: 0, calls: 0 }
}
macro_rules! bounds { ($name:ident, $f:ident, $u:ident) => {
    fn $name(r: &mut Rng) -> ($f, $f) {
        let pair = |a: $f, b: $f| if a <= b { (a, b) } else { (b, a) };
        let (a, b) = match r.below(12) {
            0 => (<$f as Gen>::random(r), <$f as Gen>::random(r)),
            1 => { let a = <$f as Gen>::random(r); (a, a) }
            2 => { let a = <$f as Gen>::random(r); let b = if a.is_finite() { <$f>::from_bits(a.to_bits() ^ (1 + r.below(3)) as $u) } else { a }; pair(a, b) }
            3 => { let s = <$f as Gen>::specials(); (s[r.below(s.len() as u64) as usize], s[r.below(s.len() as u64) as usize]) }
            4 => pair(<$f>::from_bits(r.below(9) as $u), <$f>::from_bits(r.below(90) as $u)),
            5 => pair(-<$f as Gen>::moderate(r).abs(), <$f as Gen>::moderate(r).abs()),
            _ => pair(<$f as Gen>::moderate(r), <$f as Gen>::moderate(r)),
        };
        // rand narrows a range that is small against its bounds one unit in the last place at a time, practically forever
        if a < b && a.abs().max(b.abs()) / (b - a) > 3e4 { return (0.0, (b - a) * (1.0 + r.unit() as $f)); }
        (a, b)
    }
} }
bounds!(bounds_f32, f32, u32);
bounds!(bounds_f64, f64, u64);
"""


def part(S, D):
    q = f"{D}::<{S}>::new_unchecked"
    T = f"{D}<{S}>"
    L = f"{S},{D.split('::')[-1]}"
    b = "use std::panic::AssertUnwindSafe;\n"
    # (form, how to sample quantities, how to sample the stored bounds, alternative reference or None, interval check)
    dist = [
        ("Uniform::new", f"Uniform::<{T}>::new(l, h)", "Uniform::new(lo, hi)", "<"),
        ("Uniform::new of references", f"Uniform::<{T}>::new(&l, &h)", "Uniform::new(lo, hi)", "<"),
        ("Uniform::new_inclusive", f"Uniform::<{T}>::new_inclusive(l, h)", "Uniform::new_inclusive(lo, hi)", "<="),
        ("Uniform::new_inclusive of references", f"Uniform::<{T}>::new_inclusive(&l, &h)", "Uniform::new_inclusive(lo, hi)", "<="),
        ("Uniform::from(lo..hi)", f"Uniform::<{T}>::from(l..h)", "Uniform::from(lo..hi)", "<"),
        ("Uniform::from(lo..=hi)", f"Uniform::<{T}>::from(l..=h)", "Uniform::from(lo..=hi)", "<="),
        ("Sampler::new", f"<{T} as SampleUniform>::Sampler::new(l, h)", f"UniformFloat::<{S}>::new(lo, hi)", "<"),
        ("Sampler::new_inclusive", f"<{T} as SampleUniform>::Sampler::new_inclusive(l, h)", f"UniformFloat::<{S}>::new_inclusive(lo, hi)", "<="),
    ]
    for name, got, want, cmp in dist:
        b += f"""m.form("{name} Q<{L}>"); for k in 0..n {{
            let (lo, hi) = bounds_{S}(r); let g = generator(r); let (mut g1, mut g2) = (g.clone(), g); let times = 1 + r.below(5);
            let want = attempt(|| {{ let d = {want}; (0..times).map(|_| d.sample(&mut g1)).collect::<Vec<{S}>>() }});
            let got = attempt(|| {{ let (l, h) = ({q}(lo), {q}(hi)); let d = {got}; let d2 = d.clone(); (0..times).map(|i| {{ let x: {T} = if i % 2 == 0 {{ d.sample(&mut g2) }} else {{ d2.sample(&mut g2) }}; x.value_unchecked() }}).collect::<Vec<{S}>>() }});
            if let Ok(v) = &got {{ for x in v {{ let ok = lo <= *x && *x {cmp} hi; m.event(ok, mix(x.key(), 1), || format!("{{:?}} outside of {{:?}}..{{:?}}", x, lo, hi)); }} }}
            m.same(&((lo, hi), k as u64), want, got); m.same(&((lo, hi), k as u64), (g1.calls, g1.log), (g2.calls, g2.log));
        }}
        """
    single = [
        ("gen_range(lo..hi)", "rng.gen_range(l..h)", "rng.gen_range(lo..hi)", "Uniform::new(lo, hi).sample(&mut rng)", "<"),
        ("gen_range(lo..=hi)", "rng.gen_range(l..=h)", "rng.gen_range(lo..=hi)", "Uniform::new_inclusive(lo, hi).sample(&mut rng)", "<="),
        ("sample_single", f"<{T} as SampleUniform>::Sampler::sample_single(l, h, &mut rng)", f"UniformFloat::<{S}>::sample_single(lo, hi, &mut rng)", "Uniform::new(lo, hi).sample(&mut rng)", "<"),
        ("sample_single of references", f"<{T} as SampleUniform>::Sampler::sample_single(&l, &h, &mut rng)", f"UniformFloat::<{S}>::sample_single(lo, hi, &mut rng)", "Uniform::new(lo, hi).sample(&mut rng)", "<"),
        ("sample_single_inclusive", f"<{T} as SampleUniform>::Sampler::sample_single_inclusive(l, h, &mut rng)", f"UniformFloat::<{S}>::sample_single_inclusive(lo, hi, &mut rng)", "Uniform::new_inclusive(lo, hi).sample(&mut rng)", "<="),
    ]
    for name, got, want, alt, cmp in single:
        for dyn in (False, True):
            use = "let rng: &mut dyn RngCore = rng; let mut rng = rng;" if dyn else "let mut rng = rng;"
            b += f"""m.form("{name}{' with a dyn generator' if dyn else ''} Q<{L}>"); for k in 0..n {{
                let (lo, hi) = bounds_{S}(r); let g = generator(r); let (mut g1, mut g2, mut g3) = (g.clone(), g.clone(), g);
                // a generator that only ever returns ones keeps the sampler of bare floats drawing forever where bounds round up
                let stuck = matches!(&g1.inner, Any::Step(_));
                let want = if stuck {{ None }} else {{ Some(attempt(|| {{ let rng = &mut g1; {use} {want} }})) }};
                let alt = attempt(|| {{ let rng = &mut g3; {use} {alt} }});
                let got = attempt(|| {{ let rng = &mut g2; {use} let (l, h) = ({q}(lo), {q}(hi)); let x: {T} = {got}; x.value_unchecked() }});
                if let Ok(x) = &got {{ let ok = lo <= *x && *x {cmp} hi; m.event(ok, mix(x.key(), 1), || format!("{{:?}} outside of {{:?}}..{{:?}}", x, lo, hi)); }}
                let used = (g2.calls, g2.log);
                let ok = (alt.same(&got) && (g3.calls, g3.log) == used) || want.as_ref().map_or(false, |w| w.same(&got) && (g1.calls, g1.log) == used);
                m.event(ok, ((lo, hi), k as u64).key(), || format!("bounds {{:?}}..{{:?}}: want {{}} (or {{}}) after {{}} draws, got {{}} after {{}} draws", lo, hi, alt.show(), want.as_ref().map_or("-".to_string(), |w| w.show()), g3.calls, got.show(), g2.calls));
            }}
            """
    # one generator, a history of mixed draws
    b += f"""m.form("history of draws Q<{L}>"); for k in 0..n / 4 {{
        let g = generator(r); let (mut g1, mut g2) = (g.clone(), g);
        for step in 0..20u64 {{
            let (a, b) = (<{S} as Gen>::moderate(r), <{S} as Gen>::moderate(r)); let (lo, hi) = if a < b {{ (a, b) }} else {{ (b, a + 1.0) }};
            let (w, x) = match r.below(4) {{
                0 => (Uniform::new(lo, hi).sample(&mut g1), Uniform::new({q}(lo), {q}(hi)).sample(&mut g2).value_unchecked()),
                1 => (Uniform::new_inclusive(lo, hi).sample(&mut g1), Uniform::new_inclusive({q}(lo), {q}(hi)).sample(&mut g2).value_unchecked()),
                2 => (Uniform::new(lo, hi).sample_iter(&mut g1).take(3).last().unwrap(), Uniform::new({q}(lo), {q}(hi)).sample_iter(&mut g2).take(3).last().unwrap().value_unchecked()),
                _ => {{ let u: bool = g1.gen(); let v: bool = g2.gen(); (u as u32 as {S}, v as u32 as {S}) }}
            }};
            m.same(&((lo, hi), (k as u64, step)), (w, (g1.calls, g1.log)), (x, (g2.calls, g2.log)));
        }}
    }}
    """
    return b


def run(c):
    c.rule = ("one observation = one draw of a quantity, compared with the draw that the storage type's own sampler makes from the stored bounds with a copy of the generator "
              "(value, number and content of the draws from the generator, panic or not), and with the bounds; distinct = distinct (form, bounds, outcome)")
    c.assumptions = ["rand's UniformFloat is the reference; a single draw may follow either rand's single-draw or its distribution algorithm, which differ in the last place of extreme ranges"]
    jobs = []
    for cfg in ("std", "rat"):
        d = deps(cfg)
        for S in FLOATS:
            draw = Draw(c, cfg + S)
            dims = draw.r.sample(list(SI_DIMS), c.pick(3, 8)) + ["Dimensionless"]
            w = texts.random_world(draw.r, cfg == "rat")
            dims.append("sys::dimensions::" + draw.r.choice(w.bases))
            jobs.append((cfg, d, S, program([part(S, x) for x in dims], SI + w.decl, HELP)))

    def one(job):
        cfg, d, S, text = job
        src = c.write(f"{cfg}_{S}.rs", text)
        comp = c.compile(src, d)
        if comp.ok:
            c.run(comp.out, [c.seed, c.pick(1500, 40000)], label=f"{cfg}/", timeout=c.pick(200, 800))

    pmap(one, jobs)
    return 100000
