//! Runtime of the monitored workloads: random and special inputs, and the online monitors that compare what diman
//! did with what the oracle says, count what they observed, and report on stdout in lines starting with `VF `.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{BuildHasherDefault, Hasher};

pub use glam::{DVec2, DVec3, Vec2, Vec3};

pub mod sym;
pub use sym::{Own, Sym};

// ------------------------------------------------------------------ inputs

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x1234567))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.u64() % n
    }
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
}

/// The seed given as first argument, mixed with a label so that every workload draws its own stream.
pub fn rng(label: &str) -> Rng {
    let seed: u64 = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut h = seed;
    for b in label.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    Rng::new(h)
}

/// The size given as second argument: how many random inputs to draw.
pub fn size() -> usize {
    std::env::args().nth(2).and_then(|s| s.parse().ok()).unwrap_or(200)
}

pub trait Gen: Sized + Copy {
    fn specials() -> Vec<Self>;
    /// Any bit pattern, weighted towards moderate magnitudes.
    fn random(r: &mut Rng) -> Self;
    /// Moderate magnitudes only.
    fn moderate(r: &mut Rng) -> Self;
    /// Specials followed by n random values.
    fn pool(r: &mut Rng, n: usize) -> Vec<Self> {
        let mut v = Self::specials();
        v.extend((0..n).map(|_| Self::random(r)));
        v
    }
}

macro_rules! gen_float {
    ($t:ident, $bits:ident) => {
        impl Gen for $t {
            fn specials() -> Vec<$t> {
                vec![
                    0.0, -0.0, 1.0, -1.0, 0.5, -2.0, 3.0, 1.5, 0.1, -0.3, 1e3, -7.25e-4,
                    $t::MAX, $t::MIN, $t::MIN_POSITIVE, -$t::MIN_POSITIVE, $t::from_bits(1),
                    $t::from_bits($t::MIN_POSITIVE.to_bits() - 1), $t::EPSILON, 1.0 + $t::EPSILON,
                    $t::INFINITY, $t::NEG_INFINITY, $t::NAN,
                ]
            }
            fn random(r: &mut Rng) -> $t {
                match r.below(8) {
                    0 => $t::from_bits(r.u64() as $bits),
                    1 => (r.below(41) as i64 - 20) as $t,
                    2 => (r.below(4001) as i64 - 2000) as $t / 8.0,
                    3 => { let s = $t::specials(); s[r.below(s.len() as u64) as usize] }
                    _ => Self::moderate(r),
                }
            }
            fn moderate(r: &mut Rng) -> $t {
                let e = r.below(13) as i32 - 6;
                let s = if r.below(2) == 0 { 1.0 } else { -1.0 };
                (s * (1.0 + 9.0 * r.unit()) * 10f64.powi(e)) as $t
            }
        }
    };
}
gen_float!(f32, u32);
gen_float!(f64, u64);

macro_rules! gen_vec {
    ($t:ident, $f:ident, $($c:ident),*) => {
        impl Gen for $t {
            fn specials() -> Vec<$t> {
                let s = <$f as Gen>::specials();
                let mut v: Vec<$t> = s.iter().map(|&x| $t::splat(x)).collect();
                for i in 0..s.len() {
                    let mut k = i;
                    v.push($t::new($({ let $c = s[k % s.len()]; k = k * 7 + 3; $c }),*));
                }
                v
            }
            fn random(r: &mut Rng) -> $t {
                $(let $c = <$f as Gen>::random(r);)*
                $t::new($($c),*)
            }
            fn moderate(r: &mut Rng) -> $t {
                $(let $c = <$f as Gen>::moderate(r);)*
                $t::new($($c),*)
            }
        }
    };
}
gen_vec!(Vec2, f32, x, y);
gen_vec!(Vec3, f32, x, y, z);
gen_vec!(DVec2, f64, x, y);
gen_vec!(DVec3, f64, x, y, z);

// ------------------------------------------------------------------ values

pub fn mix(h: u64, x: u64) -> u64 {
    let mut z = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15);
    z ^= z >> 29;
    z = z.wrapping_mul(0xBF58476D1CE4E5B9);
    z ^ (z >> 32)
}

/// What the monitors can compare and record.
pub trait Raw: Clone {
    /// Bit for bit, where any NaN is any other NaN.
    fn same(&self, o: &Self) -> bool;
    /// Up to `ulps` units in the last place.
    fn close(&self, o: &Self, ulps: u64) -> bool {
        let _ = ulps;
        self.same(o)
    }
    fn key(&self) -> u64;
    fn show(&self) -> String;
}

macro_rules! raw_float {
    ($t:ident, $b:ident, $i:ident) => {
        impl Raw for $t {
            fn same(&self, o: &Self) -> bool {
                (self.is_nan() && o.is_nan()) || self.to_bits() == o.to_bits()
            }
            fn close(&self, o: &Self, ulps: u64) -> bool {
                if self.is_nan() || o.is_nan() {
                    return self.is_nan() && o.is_nan();
                }
                if self == o {
                    return true;
                }
                let ord = |x: $t| -> i128 {
                    let b = x.to_bits() as $i;
                    if b < 0 { -((b & $i::MAX) as i128) } else { b as i128 }
                };
                (ord(*self) - ord(*o)).unsigned_abs() <= ulps as u128
            }
            fn key(&self) -> u64 {
                if self.is_nan() { 0x7ff8_0000_0000_0001 } else { self.to_bits() as u64 }
            }
            fn show(&self) -> String {
                format!("{:?} (0x{:x})", self, self.to_bits())
            }
        }
    };
}
raw_float!(f32, u32, i32);
raw_float!(f64, u64, i64);

macro_rules! raw_vec {
    ($t:ident) => {
        impl Raw for $t {
            fn same(&self, o: &Self) -> bool {
                self.to_array().iter().zip(o.to_array().iter()).all(|(a, b)| a.same(b))
            }
            fn close(&self, o: &Self, ulps: u64) -> bool {
                self.to_array().iter().zip(o.to_array().iter()).all(|(a, b)| a.close(b, ulps))
            }
            fn key(&self) -> u64 {
                self.to_array().iter().fold(17, |h, x| mix(h, x.key()))
            }
            fn show(&self) -> String {
                format!("{:?}", self)
            }
        }
    };
}
raw_vec!(Vec2);
raw_vec!(Vec3);
raw_vec!(DVec2);
raw_vec!(DVec3);

macro_rules! raw_plain {
    ($($t:ty),*) => {$(
        impl Raw for $t {
            fn same(&self, o: &Self) -> bool { self == o }
            fn key(&self) -> u64 {
                let mut h = 7;
                for b in format!("{:?}", self).bytes() { h = mix(h, b as u64); }
                h
            }
            fn show(&self) -> String { format!("{:?}", self) }
        }
    )*};
}
raw_plain!(bool, u8, u64, i64, usize, i32, u32, String, &'static str, Option<std::cmp::Ordering>, ());

impl<A: Raw, B: Raw> Raw for (A, B) {
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
    fn close(&self, o: &Self, n: u64) -> bool {
        self.0.close(&o.0, n) && self.1.close(&o.1, n)
    }
    fn key(&self) -> u64 {
        mix(self.0.key(), self.1.key())
    }
    fn show(&self) -> String {
        format!("({}, {})", self.0.show(), self.1.show())
    }
}

impl<A: Raw> Raw for Vec<A> {
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b))
    }
    fn close(&self, o: &Self, n: u64) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.close(b, n))
    }
    fn key(&self) -> u64 {
        self.iter().fold(self.len() as u64, |h, x| mix(h, x.key()))
    }
    fn show(&self) -> String {
        let s: Vec<String> = self.iter().take(24).map(|x| x.show()).collect();
        format!("[{}{}]", s.join(", "), if self.len() > 24 { ", ..." } else { "" })
    }
}

/// `Err` stands for a panic: two computations agree also if both panic.
impl<A: Raw> Raw for Result<A, Panic> {
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Ok(a), Ok(b)) => a.same(b),
            (Err(_), Err(_)) => true,
            _ => false,
        }
    }
    fn close(&self, o: &Self, n: u64) -> bool {
        match (self, o) {
            (Ok(a), Ok(b)) => a.close(b, n),
            (Err(_), Err(_)) => true,
            _ => false,
        }
    }
    fn key(&self) -> u64 {
        match self {
            Ok(a) => a.key(),
            Err(_) => 0xdead,
        }
    }
    fn show(&self) -> String {
        match self {
            Ok(a) => a.show(),
            Err(p) => format!("panic: {}", p.0),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Panic(pub String);

/// Run something that may panic; the panic is data.
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, Panic> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        Panic(
            e.downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| e.downcast_ref::<String>().cloned())
                .unwrap_or_default(),
        )
    })
}

// ------------------------------------------------------------------ monitor

#[derive(Default, Clone)]
pub struct Id(u64);
impl Hasher for Id {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = mix(self.0, *x as u64);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Mon {
    pub events: u64,
    distinct: HashSet<u64, BuildHasherDefault<Id>>,
    forms: BTreeMap<String, (u64, u32)>,
    samples: Vec<String>,
    viols: u32,
    form: String,
    form_key: u64,
    form_events: u64,
    form_viols: u32,
}

impl Default for Mon {
    fn default() -> Self {
        Self::new()
    }
}

impl Mon {
    pub fn new() -> Mon {
        // Expected panics are data; keep stderr readable.
        std::panic::set_hook(Box::new(|_| {}));
        Mon {
            events: 0,
            distinct: HashSet::default(),
            forms: BTreeMap::new(),
            samples: vec![],
            viols: 0,
            form: String::new(),
            form_key: 0,
            form_events: 0,
            form_viols: 0,
        }
    }

    fn flush_form(&mut self) {
        if self.form_events > 0 {
            let e = self.forms.entry(self.form.clone()).or_insert((0, 0));
            e.0 += self.form_events;
            e.1 += self.form_viols;
        }
        self.form_events = 0;
        self.form_viols = 0;
    }

    /// What is observed from here on.
    pub fn form(&mut self, f: &str) {
        self.flush_form();
        self.form = f.to_string();
        self.form_key = f.bytes().fold(99, |h, b| mix(h, b as u64));
    }

    pub fn event(&mut self, ok: bool, key: u64, detail: impl FnOnce() -> String) {
        self.events += 1;
        self.form_events += 1;
        let fresh = self.distinct.insert(mix(self.form_key, key));
        if !ok {
            self.viols += 1;
            self.form_viols += 1;
            if self.form_viols <= 3 && self.viols <= 40 {
                println!("VF {{\"t\":\"viol\",\"form\":{},\"detail\":{}}}", json(&self.form), json(&detail()));
            }
        } else if fresh && self.samples.len() < 24 && self.events % 997 == 1 {
            let s = format!("{}: {}", self.form, detail());
            self.samples.push(s);
        }
    }

    /// got must be want, bit for bit.
    pub fn same<I: Raw, T: Raw>(&mut self, input: &I, want: T, got: T) {
        let ok = want.same(&got);
        self.event(ok, input.key(), || format!("input {} want {} got {}", input.show(), want.show(), got.show()));
    }

    /// got must be want up to a few units in the last place.
    pub fn close<I: Raw, T: Raw>(&mut self, input: &I, want: T, got: T, ulps: u64) {
        let ok = want.close(&got, ulps);
        self.event(ok, input.key(), || {
            format!("input {} want {} got {} (tolerance {} ulp)", input.show(), want.show(), got.show(), ulps)
        });
    }

    /// A binary form over the product of the two pools (or a diagonal of it when that is large).
    pub fn pairs<A: Raw, B: Raw, T: Raw>(
        &mut self,
        form: &str,
        a: &[A],
        b: &[B],
        cap: usize,
        want: impl Fn(A, B) -> T,
        got: impl Fn(A, B) -> T,
    ) {
        self.form(form);
        for (x, y) in pairing(a, b, cap) {
            let w = attempt(|| want(x.clone(), y.clone()));
            let g = attempt(|| got(x.clone(), y.clone()));
            self.same(&(x, y), w, g);
        }
    }

    pub fn pairs_close<A: Raw, B: Raw, T: Raw>(
        &mut self,
        form: &str,
        a: &[A],
        b: &[B],
        cap: usize,
        ulps: u64,
        want: impl Fn(A, B) -> T,
        got: impl Fn(A, B) -> T,
    ) {
        self.form(form);
        for (x, y) in pairing(a, b, cap) {
            let w = attempt(|| want(x.clone(), y.clone()));
            let g = attempt(|| got(x.clone(), y.clone()));
            self.close(&(x, y), w, g, ulps);
        }
    }

    pub fn each<A: Raw, T: Raw>(&mut self, form: &str, a: &[A], want: impl Fn(A) -> T, got: impl Fn(A) -> T) {
        self.form(form);
        for x in a {
            let w = attempt(|| want(x.clone()));
            let g = attempt(|| got(x.clone()));
            self.same(x, w, g);
        }
    }

    pub fn each_close<A: Raw, T: Raw>(
        &mut self,
        form: &str,
        a: &[A],
        ulps: u64,
        want: impl Fn(A) -> T,
        got: impl Fn(A) -> T,
    ) {
        self.form(form);
        for x in a {
            let w = attempt(|| want(x.clone()));
            let g = attempt(|| got(x.clone()));
            self.close(x, w, g, ulps);
        }
    }

    pub fn done(mut self) {
        self.flush_form();
        let forms: Vec<String> = self.forms.iter().map(|(k, v)| format!("{}:{}", json(k), v.0)).collect();
        let samples: Vec<String> = self.samples.iter().map(|s| json(s)).collect();
        println!(
            "VF {{\"t\":\"sum\",\"events\":{},\"distinct\":{},\"viols\":{},\"forms\":{{{}}},\"samples\":[{}]}}",
            self.events,
            self.distinct.len(),
            self.viols,
            forms.join(","),
            samples.join(",")
        );
    }
}

/// Up to `cap` pairs: the whole product if it fits, otherwise an even, deterministic part of it.
pub fn pairing<A: Clone, B: Clone>(a: &[A], b: &[B], cap: usize) -> Vec<(A, B)> {
    let total = a.len() * b.len();
    let mut out = vec![];
    if total <= cap {
        for x in a {
            for y in b {
                out.push((x.clone(), y.clone()));
            }
        }
    } else {
        // A stride coprime to the total visits the product evenly without repeating.
        let mut stride = (total as f64 * 0.618_033_988_75) as usize | 1;
        let gcd = |mut a: usize, mut b: usize| {
            while b != 0 {
                (a, b) = (b, a % b);
            }
            a
        };
        while gcd(stride, total) != 1 {
            stride += 1;
        }
        let mut k = 0;
        for _ in 0..cap {
            out.push((a[k / b.len()].clone(), b[k % b.len()].clone()));
            k = (k + stride) % total;
        }
    }
    out
}
