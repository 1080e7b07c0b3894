//! Storage types other than floats and vectors. `Sym` is symbolic: it records which storage operations were performed on
//! it, with which operands and in which order, so that a quantity of `Sym` shows what an operator does to what it stores.
use crate::{mix, Gen, Raw, Rng};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::ops::*;

#[derive(Clone, Copy)]
pub struct Sym(u32);

#[derive(Default)]
struct Arena {
    texts: Vec<String>,
    ids: HashMap<String, u32>,
}

thread_local! {
    static ARENA: RefCell<Arena> = RefCell::new(Arena::default());
}

impl Sym {
    pub fn of(text: String) -> Sym {
        ARENA.with(|a| {
            let mut a = a.borrow_mut();
            if let Some(&i) = a.ids.get(&text) {
                return Sym(i);
            }
            let i = a.texts.len() as u32;
            a.texts.push(text.clone());
            a.ids.insert(text, i);
            Sym(i)
        })
    }
    pub fn text(&self) -> String {
        ARENA.with(|a| a.borrow().texts[self.0 as usize].clone())
    }
    /// A stand-in for the value, for comparisons; a part of the values is comparable with nothing.
    fn rank(&self) -> Option<u64> {
        rank(&self.text())
    }
}

fn rank(t: &str) -> Option<u64> {
    let h = t.bytes().fold(5, |h, b| mix(h, b as u64));
    if h % 5 == 0 { None } else { Some(h >> 8 & 7) }
}

fn cmp(a: Option<u64>, b: Option<u64>) -> Option<Ordering> {
    Some(a?.cmp(&b?))
}

/// Shows how it was asked to be shown.
impl std::fmt::Display for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let align = match f.align() {
            None => "",
            Some(std::fmt::Alignment::Left) => "<",
            Some(std::fmt::Alignment::Right) => ">",
            Some(std::fmt::Alignment::Center) => "^",
        };
        write!(
            f,
            "{}[{}{}w{:?}p{:?}s{}m{}z{}a{}]",
            self.text(),
            f.fill(),
            align,
            f.width().unwrap_or(999),
            f.precision().unwrap_or(999),
            f.sign_plus() as u8,
            f.sign_minus() as u8,
            f.sign_aware_zero_pad() as u8,
            f.alternate() as u8
        )
    }
}

impl Default for Sym {
    fn default() -> Sym {
        Sym::of("0".into())
    }
}

impl Raw for Sym {
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
    fn key(&self) -> u64 {
        self.text().bytes().fold(11, |h, b| mix(h, b as u64))
    }
    fn show(&self) -> String {
        self.text()
    }
}

impl Gen for Sym {
    fn specials() -> Vec<Sym> {
        "abcdefgh".chars().map(|c| Sym::of(c.to_string())).chain([Sym::default()]).collect()
    }
    fn random(r: &mut Rng) -> Sym {
        Sym::of(format!("v{}", r.below(1000)))
    }
    fn moderate(r: &mut Rng) -> Sym {
        Sym::of(format!("v{}", r.below(1000)))
    }
}

fn term(op: &str, a: &str, b: &str) -> Sym {
    // Adding to nothing is no operation, so that a sum may start from either.
    if op == "+" && a == "0" {
        return Sym::of(b.to_string());
    }
    Sym::of(format!("({a} {op} {b})"))
}

macro_rules! ops {
    ($($tr:ident $f:ident $tra:ident $fa:ident $op:literal),*) => {$(
        impl $tr<Sym> for Sym { type Output = Sym; fn $f(self, o: Sym) -> Sym { term($op, &self.text(), &o.text()) } }
        impl $tra<Sym> for Sym { fn $fa(&mut self, o: Sym) { *self = term($op, &self.text(), &o.text()); } }
        ops!(@ $tr $f $tra $fa $op f32);
        ops!(@ $tr $f $tra $fa $op f64);
    )*};
    (@ $tr:ident $f:ident $tra:ident $fa:ident $op:literal $t:ident) => {
        impl $tr<$t> for Sym { type Output = Sym; fn $f(self, o: $t) -> Sym { term($op, &self.text(), &o.show()) } }
        impl $tr<Sym> for $t { type Output = Sym; fn $f(self, o: Sym) -> Sym { term($op, &self.show(), &o.text()) } }
        impl $tra<$t> for Sym { fn $fa(&mut self, o: $t) { *self = term($op, &self.text(), &o.show()); } }
    };
}
ops!(Add add AddAssign add_assign "+", Sub sub SubAssign sub_assign "-", Mul mul MulAssign mul_assign "*", Div div DivAssign div_assign "/");

impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        Sym::of(format!("(- {})", self.text()))
    }
}

impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        cmp(self.rank(), o.rank()) == Some(Ordering::Equal)
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        cmp(self.rank(), o.rank())
    }
}
macro_rules! cmps {
    ($($t:ident),*) => {$(
        impl PartialEq<$t> for Sym { fn eq(&self, o: &$t) -> bool { cmp(self.rank(), rank(&o.show())) == Some(Ordering::Equal) } }
        impl PartialEq<Sym> for $t { fn eq(&self, o: &Sym) -> bool { cmp(rank(&self.show()), o.rank()) == Some(Ordering::Equal) } }
        impl PartialOrd<$t> for Sym { fn partial_cmp(&self, o: &$t) -> Option<Ordering> { cmp(self.rank(), rank(&o.show())) } }
        impl PartialOrd<Sym> for $t { fn partial_cmp(&self, o: &Sym) -> Option<Ordering> { cmp(rank(&self.show()), o.rank()) } }
    )*};
}
cmps!(f32, f64);

/// A storage type that is not Copy.
#[derive(Clone, Debug, Default)]
pub struct Own(pub String);

impl Raw for Own {
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
    fn key(&self) -> u64 {
        self.0.bytes().fold(13, |h, b| mix(h, b as u64))
    }
    fn show(&self) -> String {
        self.0.clone()
    }
}

macro_rules! own_ops {
    ($($tr:ident $f:ident $tra:ident $fa:ident $op:literal),*) => {$(
        impl $tr<Own> for Own { type Output = Own; fn $f(self, o: Own) -> Own { Own(format!("({} {} {})", self.0, $op, o.0)) } }
        impl $tra<Own> for Own { fn $fa(&mut self, o: Own) { self.0 = if $op == "+" && self.0.is_empty() { o.0 } else { format!("({} {} {})", self.0, $op, o.0) }; } }
        impl $tr<f64> for Own { type Output = Own; fn $f(self, o: f64) -> Own { Own(format!("({} {} {})", self.0, $op, o.show())) } }
        impl $tr<Own> for f64 { type Output = Own; fn $f(self, o: Own) -> Own { Own(format!("({} {} {})", self.show(), $op, o.0)) } }
    )*};
}
own_ops!(Add add AddAssign add_assign "+", Sub sub SubAssign sub_assign "-", Mul mul MulAssign mul_assign "*", Div div DivAssign div_assign "/");
impl Neg for Own {
    type Output = Own;
    fn neg(self) -> Own {
        Own(format!("(- {})", self.0))
    }
}
impl PartialEq for Own {
    fn eq(&self, o: &Own) -> bool {
        cmp(rank(&self.0), rank(&o.0)) == Some(Ordering::Equal)
    }
}
impl PartialOrd for Own {
    fn partial_cmp(&self, o: &Own) -> Option<Ordering> {
        cmp(rank(&self.0), rank(&o.0))
    }
}

macro_rules! gen_int {
    ($($t:ident),*) => {$(
        impl Gen for $t {
            fn specials() -> Vec<$t> {
                vec![0, 1, 2, 3, 7, 100, $t::MAX, $t::MIN, $t::MAX / 2, $t::MIN / 2 + 1, (0 as $t).wrapping_sub(1), (0 as $t).wrapping_sub(5)]
            }
            fn random(r: &mut Rng) -> $t {
                if r.below(3) == 0 { r.u64() as $t } else { (r.below(101) as i64 - 50) as $t }
            }
            fn moderate(r: &mut Rng) -> $t {
                (r.below(13) as i64 - 6) as $t
            }
        }
    )*};
}
gen_int!(i32, i64, u64, u32);
